// Trace driver for the random number generator (mode=0) and for error codes
// (mode=1). The events are validated against spec/NecoRand.tla by
// spec/TraceRand.tla and against spec/NecoErr.tla by spec/TraceErr.tla.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <netdb.h>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/un.h>
#include "neco.h"
#include "vt.h"

static int p_n = 100, p_threads = 1;
static uint64_t p_seed = 1;
static long maxev;

// ------------------------------------------------------------------ mode 0
#define PART 256
#define MAXN 1100
struct th { int no; uint64_t rng; int64_t pool[8]; int np; int sizes[4]; int live; int64_t id[8]; int kind[8]; bool multi, whole; };
static __thread struct th *T;

// events of a program are kept until its end: a call event is completed when
// the call has returned
#define MAXE 400
static __thread char *evs[MAXE];
static __thread int nevs;
static int put(char *s) { if (nevs < MAXE) evs[nevs++] = s; return nevs - 1; }
#define EV(...) ({ char *s_; asprintf(&s_, __VA_ARGS__); put(s_); })

static unsigned hash(const unsigned char *b, size_t n) {
    uint64_t h = 1469598103934665603ULL ^ n;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL;
    h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 29;
    return (unsigned)(h & 0x3fffffff);
}
static const char *rname(int r) {
    return r == NECO_OK ? "OK" : r == NECO_TIMEDOUT ? "TIMEDOUT" : r == NECO_CANCELED ? "CANCELED" : r == NECO_INVAL ? "INVAL" : r == NECO_PERM ? "PERM" : "OTHER";
}
static __thread struct pend { bool on; int k, attr; size_t n; unsigned char *b, *fill; bool late; } pend[8];
static void complete_call(int c, const char *r) {
    struct pend *q = &pend[c];
    char parts[1024]; int pl = 0; parts[0] = 0;
    for (size_t o = 0; o < q->n; o += PART) {
        size_t m = q->n - o < PART ? q->n - o : PART;
        bool took = !strcmp(r, "OK") || memcmp(q->b + o, q->fill + o, m) != 0;
        pl += snprintf(parts + pl, sizeof(parts) - pl, "%s[%zu,%u,%d]", o ? "," : "", m, hash(q->b + o, m), took);
    }
    bool beyond = memcmp(q->b + q->n, q->fill + q->n, MAXN + 16 - q->n) == 0;
    free(evs[q->k]);
    asprintf(&evs[q->k], "{\"e\":\"call\",\"c\":%d,\"kind\":%d,\"parts\":[%s],\"r\":\"%s\",\"late\":%s,\"fresh\":%s}", c,
        q->attr == NECO_CSPRNG ? 1 : q->attr == NECO_PRNG ? 0 : 2, parts, r, q->late ? "true" : "false", beyond ? "true" : "false");
    q->on = false;
}
static void request(int c, size_t n, int attr, int64_t dl, bool useplain) {
    unsigned char b[MAXN + 16], fill[MAXN + 16];
    for (size_t i = 0; i < sizeof(b); i++) fill[i] = (unsigned char)rng_next(&T->rng);
    memcpy(b, fill, sizeof(b));
    pend[c] = (struct pend){ true, EV("{\"e\":\"crash\"}"), attr, n, b, fill, !useplain && dl <= vt_now() };
    int r = useplain ? neco_rand(b, n, attr) : neco_rand_dl(b, n, attr, dl);
    int le = neco_lasterr();
    complete_call(c, rname(r));
    EV("{\"e\":\"ret\",\"c\":%d,\"r\":\"%s\",\"le\":\"%s\",\"over\":%s}", c, rname(r), rname(le), !useplain && dl <= vt_now() ? "true" : "false");
}
static void op(int c) {
    uint64_t *g = &T->rng;
    int k = RN(g, 20);
    size_t n = T->multi || T->whole ? 256 * (1 + RN(g, T->multi ? 3 : 4)) : T->sizes[RN(g, 4)];
    if (T->multi && k < 5) k = 5;
    if (k < (T->whole ? 2 : 5)) {
        int64_t s = T->pool[RN(g, T->np)], old = 77;
        bool want = RN(g, 4) != 0;
        int r = neco_rand_setseed(s, want ? &old : NULL);
        EV("{\"e\":\"seed\",\"c\":%d,\"s\":\"%lx\",\"old\":\"%s%lx\",\"want\":%s,\"r\":\"%s\"}", c, (long)s, "", (long)old, want ? "true" : "false", rname(r));
        if (want && RN(g, 2)) T->pool[T->np < 8 ? T->np++ : 4 + RN(g, 4)] = old;
    } else if (k < 14) request(c, n, NECO_PRNG, 0, true);
    else if (k < 15) request(c, n, NECO_PRNG, neco_now() + (RN(g, 3) ? RN(g, 12) : -5), false);
    else if (k < 16) request(c, n, NECO_CSPRNG, neco_now() + (RN(g, 3) ? RN(g, 12) : INT32_MAX), false);
    else if (k < 17) request(c, 16 + RN(g, 300), NECO_CSPRNG, 0, true);
    else if (k < 18) request(c, n, RN(g, 2) ? 2 : -1 - RN(g, 3), 0, true);
    else if (k < 19 || T->live == 1) request(c, 0, RN(g, 2), 0, true);
    else {
        int x = 1 + RN(g, 3);
        if (x != c && T->id[x]) {
            EV("{\"e\":\"cancel\",\"c\":%d,\"x\":%d}", c, x);
            neco_cancel(T->id[x]);
            EV("{\"e\":\"canceled\",\"c\":%d,\"x\":%d}", c, x);
        }
    }
}
static void gone(void *a) {
    int c = (int)(intptr_t)a;
    T->id[c] = 0; T->live--;
    bool in = pend[c].on;
    if (in) complete_call(c, "EXIT");
    EV("{\"e\":\"%s\",\"c\":%d}", in ? "exit" : "end", c);
}
static void other(int argc, void *argv[]) {
    int c = (int)(intptr_t)argv[0], n = (int)(intptr_t)argv[1];
    neco_setcanceltype(T->kind[c] ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, NULL);
    T->id[c] = neco_getid(); T->live++;
    EV("{\"e\":\"begin\",\"c\":%d,\"asy\":%s}", c, T->kind[c] ? "true" : "false");
    neco_cleanup_push(gone, (void*)(intptr_t)c);
    for (int i = 0; i < n; i++) { op(c); }
    neco_cleanup_pop(1);
}
static void mainco(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, NULL);
    T->id[1] = neco_getid(); T->live = 1;
    EV("{\"e\":\"begin\",\"c\":1,\"asy\":false}");
    int64_t s = T->pool[RN(&T->rng, 4)];
    int r = neco_rand_setseed(s, NULL);
    EV("{\"e\":\"seed\",\"c\":1,\"s\":\"%lx\",\"old\":\"\",\"want\":false,\"r\":\"%s\"}", (long)s, rname(r));
    T->multi = RN(&T->rng, 8) == 0;
    T->whole = RN(&T->rng, 3) == 0;
    int n = 4 + RN(&T->rng, 8);
    if (!T->multi) for (int i = 0; i < n; i++) op(1);
    else {
        // both at once; few calls, the specification tries all interleavings
        T->kind[2] = RN(&T->rng, 3) == 0;
        neco_start(other, 2, (void*)2L, (void*)(intptr_t)(2 + RN(&T->rng, 2)));
        T->kind[3] = RN(&T->rng, 3) == 0;
        if (RN(&T->rng, 2)) neco_start(other, 2, (void*)3L, (void*)(intptr_t)(1 + RN(&T->rng, 2)));
        for (int i = 0; i < 4 && T->live > 1; i++) op(1);
    }
    while (T->live > 1) neco_yield();         // one coroutine again: the specification learns
    T->id[1] = 0;
    EV("{\"e\":\"end\",\"c\":1}");
}
static void run_rand(struct th *t, int n) {
    T = t;
    static const int64_t fixed[4] = { 0, 1, INT64_MIN, 0x123456789abcdefLL };
    static const int all[12] = { 1, 3, 4, 7, 16, 255, 256, 257, 512, 600, 1024, 1025 };
    for (int p = 0; p < n && log_count < maxev; p++) {
        if (p % 100 == 0) {
            for (int k = 0; k < 4; k++) t->pool[k] = RN(&t->rng, 2) ? fixed[k] : (int64_t)rng_next(&t->rng);
            t->pool[3] = t->pool[2] ^ ((int64_t)1 << RN(&t->rng, 63));    // one bit differs
            for (int k = 0; k < 4; k++) t->sizes[k] = all[RN(&t->rng, k == 3 ? 12 : 10)];
            t->sizes[0] = all[4 + RN(&t->rng, 3)];
        }
        t->np = 4;
        memset(t->id, 0, sizeof(t->id));
        nevs = 0;
        EV("{\"e\":\"reset\"}");
        int r = neco_start(mainco, 0);
        EV("{\"e\":\"done\",\"r\":\"%s\"}", rname(r));
        for (int i = 0; i < nevs; i++) { log_ev("%s", evs[i]); free(evs[i]); }
    }
}
static char *out;
static void *thread(void *a) {
    struct th *t = a;
    char path[4096];
    snprintf(path, sizeof(path), "%s.%d", out, t->no);
    vt_thread(1000000000, path);
    run_rand(t, p_n);
    log_close();
    return NULL;
}

// ------------------------------------------------------------------ mode 1
// internal functions, perhaps not there
void neco_errconv_to_sys(int err) __attribute__((weak));
int neco_errconv_from_sys(void) __attribute__((weak));
static int inject, left;            // the next system calls fail with this
#define WRAP(ret, name, decl, call) ret __real_##name decl; ret __wrap_##name decl { \
    if (left > 0) { left--; errno = inject; return -1; } return __real_##name call; }
WRAP(ssize_t, read, (int fd, void *b, size_t n), (fd, b, n))
WRAP(ssize_t, write, (int fd, const void *b, size_t n), (fd, b, n))
WRAP(int, accept, (int fd, struct sockaddr *a, socklen_t *l), (fd, a, l))
WRAP(int, connect, (int fd, const struct sockaddr *a, socklen_t l), (fd, a, l))

static void errs(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, NULL);
    int p[2], s[2];
    char b[8] = "1234567", text[256], want[256], path[108] = "no.such.sock";
    if (pipe(p) || socketpair(AF_UNIX, SOCK_STREAM, 0, s)) exit(9);
    if (write(p[1], b, 4) != 4 || write(s[1], b, 4) != 4) exit(9);       // readable
    neco_setnonblock(p[0], true, NULL); neco_setnonblock(p[1], true, NULL); neco_setnonblock(s[0], true, NULL);
    struct sockaddr_un un = { .sun_family = AF_UNIX };
    strcpy(un.sun_path, path);
    // a system call fails with e
    for (int e = 1; e < 160; e++) for (int k = 0; k < 6; k++) {
        if (e == EINTR || e == EAGAIN || e == EINPROGRESS || e == EALREADY || e == EISCONN) continue;   // not failures
        if (k == 3 && e == ENOMEM) continue;
        long r = 0;
        neco_stream *st = NULL;
        if (k == 4 || k == 5) { if (neco_stream_make(&st, dup(s[0])) != NECO_OK) exit(9); }
        inject = e; left = 1; errno = 0;
        switch (k) {
        case 0: r = neco_read(p[0], b, 4); break;
        case 1: r = neco_write(p[1], b, 4); break;
        case 2: r = neco_accept(s[0], NULL, NULL); break;
        case 3: r = neco_connect(s[0], (void*)&un, sizeof(un)); break;
        case 4: r = neco_stream_read(st, b, 4); break;
        case 5: r = neco_stream_write(st, b, 4); break;
        }
        int en = errno, le = neco_lasterr(), used = left == 0;
        snprintf(text, sizeof(text), "%s", (errno = en, neco_strerror(le)));
        snprintf(want, sizeof(want), "%s", strerror(e));
        left = 0;
        log_ev("{\"e\":\"sys\",\"k\":%d,\"errno\":%d,\"used\":%d,\"r\":%ld,\"after\":%d,\"le\":%d,\"text\":\"%s\",\"want\":\"%s\"}",
            k, e, used, r, en, le, text, want);
        if (st) neco_stream_close(st);
    }
    // the texts of all codes
    for (int c = -40; c <= 8; c++) {
        errno = EXDEV;
        const char *x = neco_strerror(c);
        if (c == NECO_GAIERROR) continue;
        snprintf(want, sizeof(want), "Undefined error: %d", c);
        log_ev("{\"e\":\"text\",\"code\":%d,\"text\":\"%s\",\"undef\":\"%s\",\"sys\":\"%s\"}", c, x, want, strerror(EXDEV));
    }
    // conversion from and to the errors of the system
    if (neco_errconv_from_sys) for (int e = 0; e < 160; e++) {
        errno = e;
        int r = neco_errconv_from_sys();
        log_ev("{\"e\":\"from\",\"errno\":%d,\"r\":%d,\"after\":%d}", e, r, errno);
    }
    if (neco_errconv_to_sys) for (int c = 0; c >= -18; c--) {
        errno = EXDEV;
        neco_errconv_to_sys(c);
        log_ev("{\"e\":\"to\",\"code\":%d,\"before\":%d,\"after\":%d}", c, EXDEV, errno);
    }
    // a failed lookup
    struct { const char *n, *s; struct addrinfo h; } q[] = {
        { "127.0.0.1", "nosuchservice", { .ai_socktype = SOCK_STREAM } },
        { "not an address", "80", { .ai_flags = AI_NUMERICHOST } },
        { "127.0.0.1", "80", { .ai_flags = -1 } },
        { "127.0.0.1", "80", { .ai_family = 9999 } },
        { "127.0.0.1", "80", { .ai_socktype = 9999 } },
        { "::1", "80", { .ai_family = AF_INET, .ai_flags = AI_NUMERICHOST } },
        { "127.0.0.1", "80", { .ai_socktype = SOCK_STREAM } },
        { NULL, "80", { .ai_flags = AI_PASSIVE, .ai_socktype = SOCK_STREAM } },
        { "127.0.0.1", NULL, { .ai_socktype = SOCK_STREAM } },
        { NULL, NULL, { 0 } },
    };
    for (int i = 0; i < (int)(sizeof(q) / sizeof(q[0])); i++) {
        struct addrinfo *a = NULL, *b = NULL;
        int w = getaddrinfo(q[i].n, q[i].s, &q[i].h, &b);
        int r = neco_getaddrinfo(q[i].n, q[i].s, &q[i].h, &a);
        int le = neco_lasterr(), g = neco_gai_lasterr();
        int same = 1;
        struct addrinfo *x = a, *y = b;
        for (; x && y; x = x->ai_next, y = y->ai_next)
            same &= x->ai_family == y->ai_family && x->ai_socktype == y->ai_socktype && x->ai_protocol == y->ai_protocol &&
                x->ai_addrlen == y->ai_addrlen && memcmp(x->ai_addr, y->ai_addr, x->ai_addrlen) == 0;
        same &= w != 0 || (!x && !y);
        snprintf(text, sizeof(text), "%s", neco_strerror(le));
        log_ev("{\"e\":\"gai\",\"i\":%d,\"r\":%d,\"w\":%d,\"le\":%d,\"g\":%d,\"text\":\"%s\",\"want\":\"%s\",\"same\":%d}",
            i, r, w, le, g, text, gai_strerror(w), same);
        if (a && r == 0) freeaddrinfo(a);
        if (b && w == 0) freeaddrinfo(b);
    }
    close(p[0]); close(p[1]); close(s[0]); close(s[1]);
}

int main(int argc, char *argv[]) {
    int mode = 0;
    for (int i = 1; i < argc; i++) {
        char *v = strchr(argv[i], '=');
        if (!v) return 9;
        *v++ = 0;
        if (!strcmp(argv[i], "seed")) p_seed = strtoull(v, 0, 10);
        else if (!strcmp(argv[i], "n")) p_n = atoi(v);
        else if (!strcmp(argv[i], "mode")) mode = atoi(v);
        else if (!strcmp(argv[i], "maxev")) maxev = atol(v);
        else if (!strcmp(argv[i], "threads")) p_threads = atoi(v);
        else if (!strcmp(argv[i], "out")) out = v;
        else if (!strcmp(argv[i], "flush")) ;
        else return 9;
    }
    if (!out) return 9;
    if (!maxev) maxev = 1L << 40;
    vt_enable(1000000000);
    log_open(out);
    if (mode == 1) {
        log_ev("{\"e\":\"reset\"}");
        int r = neco_start(errs, 0);
        log_ev("{\"e\":\"done\",\"r\":%d}", r);
    } else {
        struct th t[8] = { 0 };
        pthread_t h[8];
        for (int k = 0; k < p_threads; k++) { t[k].no = k; t[k].rng = p_seed * 77 + (p_threads > 1 ? k % 2 : 0); }
        if (p_threads == 1) run_rand(&t[0], p_n);
        else {
            for (int k = 0; k < p_threads; k++) pthread_create(&h[k], 0, thread, &t[k]);
            for (int k = 0; k < p_threads; k++) pthread_join(h[k], 0);
        }
    }
    log_close();
    return 0;
}
