// Trace driver for coroutine stacks: random programs of many coroutines that
// build call frames of random sizes, switch at any depth, end early or late,
// and check that frames and callee-saved registers are as they left them.
// The events are validated against spec/NecoStack.tla by spec/TraceStack.tla.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <pthread.h>
#include <malloc.h>
#include "neco.h"
#include "vt.h"

#ifndef NECO_STACKSIZE
#define NECO_STACKSIZE 8388608
#endif
#define MARGIN 24576            // for the frames of the driver and the library
#define MAXCO 160
#define MAXD 6
static int p_maxco = 60, p_deep = 20, p_ops = 12, p_threads = 1, p_asy = 30;
static long maxev;
static char *base;

struct th {                     // one runtime
    int no;
    uint64_t rng;
    int live, started;
    int64_t id[MAXCO + 1];
    bool used[MAXCO + 1];
    neco_chan *ch;
};
static __thread struct th *T;

struct frame { struct frame *up; int v; unsigned char *b; size_t n; int c; };
struct me { int c; uint64_t rng; char *top; struct frame *f; int depth; char outer[64] __attribute__((aligned(16))); };

static int page(const void *p) {
    long d = ((const char*)p - base) / 4096 + (1L << 29);
    return d <= 0 || d > (1L << 30) + (1L << 29) ? -1 : (int)d;
}
static unsigned char pat(int v, size_t i) { return (unsigned char)(v * 37 + (int)(i >> 3) * 11 + 5); }
// the value stored in a frame, -1 if it was damaged
static int rdframe(struct frame *f) {
    for (size_t i = 0; i < f->n; i++) if (f->b[i] != pat(f->v, i)) return -1;
    return f->v;
}
static void check(struct me *m) {
    int k = 0;
    for (struct frame *f = m->f; f; f = f->up, k++) {
        log_ev("{\"e\":\"read\",\"c\":%d,\"k\":%d,\"v\":%d,\"own\":%s}", m->c, k, rdframe(f), f->c == m->c ? "true" : "false");
    }
}

#if defined(__x86_64__)
// call fn with known values in the callee-saved registers; 0 if they survive
uint64_t regcall(const uint64_t in[6], int (*fn)(void *), void *arg, int *ret);
__asm__(
".text\n.globl regcall\nregcall:\n"
" push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n"
" sub $24,%rsp\n"
" mov %rdi,(%rsp)\n mov %rcx,8(%rsp)\n"
" mov (%rdi),%rbx\n mov 8(%rdi),%rbp\n mov 16(%rdi),%r12\n mov 24(%rdi),%r13\n mov 32(%rdi),%r14\n mov 40(%rdi),%r15\n"
" mov %rsi,%rax\n mov %rdx,%rdi\n call *%rax\n"
" mov 8(%rsp),%rcx\n mov %eax,(%rcx)\n"
" mov (%rsp),%rdi\n xor %eax,%eax\n"
" cmp (%rdi),%rbx\n je 1f\n or $1,%eax\n1: cmp 8(%rdi),%rbp\n je 1f\n or $2,%eax\n1: cmp 16(%rdi),%r12\n je 1f\n or $4,%eax\n"
"1: cmp 24(%rdi),%r13\n je 1f\n or $8,%eax\n1: cmp 32(%rdi),%r14\n je 1f\n or $16,%eax\n1: cmp 40(%rdi),%r15\n je 1f\n or $32,%eax\n1:\n"
" add $24,%rsp\n"
" pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n");
#else
static uint64_t regcall(const uint64_t in[6], int (*fn)(void *), void *arg, int *ret) { (void)in; *ret = fn(arg); return 0; }
#endif

static int sw_yield(void *a) { (void)a; return neco_yield(); }
static int sw_sleep(void *a) { return neco_sleep((long)(intptr_t)a); }
static int sw_susp(void *a) { return neco_suspend_dl(neco_now() + (long)(intptr_t)a); }
static int sw_recv(void *a) { int v; return neco_chan_recv_dl(T->ch, &v, neco_now() + (long)(intptr_t)a); }
static int sw_send(void *a) { int v = 1; return neco_chan_send_dl(T->ch, &v, neco_now() + (long)(intptr_t)a); }

static void entry(int argc, void *argv[]);
static void start(uint64_t *R) {
    struct th *t = T;
    if (t->live >= p_maxco || t->started >= 4 * p_maxco) return;
    int c = 0;
    for (int i = 1; i <= p_maxco; i++) if (!t->used[i]) { c = i; break; }
    if (!c) return;
    t->used[c] = true;
    t->live++; t->started++;
    uint64_t s = rng_next(R);
    int r = neco_start(entry, 2, (void*)(intptr_t)c, (void*)(intptr_t)s);
    if (r != NECO_OK) log_ev("{\"e\":\"startfailed\"}");
}

static void doswitch(struct me *m) {
    uint64_t in[6];
    for (int i = 0; i < 6; i++) in[i] = rng_next(&m->rng);
    int ret = 0;
    long ns = 1000000L * (1 + RN(&m->rng, 4));
    if (RN(&m->rng, 40) == 0) ns = 150 * 1000000L;
    uint64_t bad;
    switch (RN(&m->rng, 6)) {
    case 0: bad = regcall(in, sw_sleep, (void*)(intptr_t)ns, &ret); break;
    case 1: bad = regcall(in, sw_susp, (void*)(intptr_t)ns, &ret); break;
    case 2: bad = regcall(in, sw_recv, (void*)(intptr_t)ns, &ret); break;
    case 3: bad = regcall(in, sw_send, (void*)(intptr_t)ns, &ret); break;
    default: bad = regcall(in, sw_yield, 0, &ret); break;
    }
    log_ev("{\"e\":\"switched\",\"c\":%d,\"regs\":%d}", m->c, (int)bad);
}

static __attribute__((noinline)) void body(struct me *m, int nops);
static __attribute__((noinline)) void deeper(struct me *m, int nops) {
    size_t left = (size_t)((char*)__builtin_frame_address(0) - (m->top - NECO_STACKSIZE));
    size_t n = 16 + (size_t)RN(&m->rng, 3000);
    if (left < n + 2 * MARGIN) return;
    if (RN(&m->rng, 100) < p_deep) {
        // nearly all of the stack
        size_t full = left - MARGIN;
        if (NECO_STACKSIZE > 400000 && full > 400000) full = 400000;
        n = full > 32768 ? full - (size_t)RN(&m->rng, 16384) : n;
        if (left < n + MARGIN) return;
    }
    unsigned char *b = __builtin_alloca(n);
    static int vcount;
    int v = __atomic_add_fetch(&vcount, 1, __ATOMIC_SEQ_CST);
    for (size_t i = 0; i < n; i++) b[i] = pat(v, i);
    struct frame f = { .up = m->f, .v = v, .b = b, .n = n, .c = m->c };
    m->f = &f;
    m->depth++;
    log_ev("{\"e\":\"push\",\"c\":%d,\"v\":%d,\"lo\":%d,\"hi\":%d}", m->c, v, page(b), page(b + n - 1));
    body(m, nops);
    // the frame again before it goes
    log_ev("{\"e\":\"read\",\"c\":%d,\"k\":0,\"v\":%d,\"own\":%s}", m->c, rdframe(&f), m->f == &f ? "true" : "false");
    m->f = f.up;
    m->depth--;
    log_ev("{\"e\":\"pop\",\"c\":%d}", m->c);
}
static void body(struct me *m, int nops) {
    for (int i = 0; i < nops; i++) {
        switch (RN(&m->rng, 10)) {
        case 0: case 1: case 2: doswitch(m); break;
        case 3: check(m); break;
        case 4: case 5: start(&m->rng); break;
        case 6: case 7: if (m->depth < MAXD) deeper(m, 1 + RN(&m->rng, p_ops)); break;
        case 8:
            if (RN(&m->rng, 8) == 0) neco_exit();
            doswitch(m);
            break;
        case 9: {
            int x = 1 + RN(&m->rng, p_maxco);
            if (T->used[x] && T->id[x] && RN(&m->rng, 4) == 0) {
                neco_cancel(T->id[x]);
            } else if (T->used[x] && T->id[x]) {
                neco_resume(T->id[x]);
            }
            log_ev("{\"e\":\"switched\",\"c\":%d,\"regs\":0}", m->c);
            break; }
        }
    }
}
static void gone(void *arg) {
    int c = (int)(intptr_t)arg;
    T->used[c] = false;
    T->id[c] = 0;
    T->live--;
    log_ev("{\"e\":\"end\",\"c\":%d}", c + (T->no << 8));
}
static void entry(int argc, void *argv[]) {
    struct me m = { .c = (int)(intptr_t)argv[0], .rng = (uint64_t)(intptr_t)argv[1] };
    int slot = m.c;
    T->id[slot] = neco_getid();
    m.c += T->no << 8;
    // the stack pointer right after the start is at most a page below the top
    m.top = (char*)__builtin_frame_address(0);
    log_ev("{\"e\":\"begin\",\"c\":%d,\"lo\":%d,\"hi\":%d,\"ok\":%s}", m.c, page(m.top - NECO_STACKSIZE + MARGIN), page(m.top),
        argc == 2 ? "true" : "false");
    __neco_c0(m.outer, gone, (void*)(intptr_t)slot);
    body(&m, 2 + RN(&m.rng, p_ops));
    __neco_c1(0);
    check(&m);
    gone((void*)(intptr_t)slot);
}
static void boot(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    neco_chan_make(&T->ch, sizeof(int), 0);
    uint64_t R = T->rng ^ 5;
    for (int i = 0; i < 4 + RN(&R, p_maxco); i++) start(&R);
    for (int i = 0; i < 60 && T->started < 4 * p_maxco; i++) {
        neco_sleep(1000000L * (1 + RN(&R, 5)));
        if (T->live < 3 || RN(&R, 3) == 0) for (int j = 0; j < 1 + RN(&R, 10); j++) start(&R);
        if (RN(&R, 12) == 0) neco_sleep(150 * 1000000L);
    }
    T->started = 1 << 20;
    for (int i = 0; T->live > 0; i++) {
        if (i > 3000) { log_ev("{\"e\":\"stuck\"}"); log_close(); _exit(7); }
        for (int c = 1; c <= p_maxco; c++) if (T->used[c] && T->id[c]) neco_cancel(T->id[c]);
        neco_sleep(5000000);
    }
    neco_chan_release(T->ch);
}
static void run(int no, uint64_t seed) {
    struct th t = { .no = no, .rng = seed };
    T = &t;
    uint64_t R = seed ^ 99;
    neco_env_setcanceltype(RN(&R, 100) < p_asy ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE);
    int r = neco_start(boot, 0);
    if (r != NECO_OK) log_ev("{\"e\":\"startfailed\"}");
}
static uint64_t tseed;
static void *thmain(void *a) { run((int)(intptr_t)a, tseed + (uint64_t)(intptr_t)a * 7919); return 0; }

int main(int argc, char *argv[]) {
    const char *out = NULL;
    uint64_t seed = 1;
    long n = 5;
    for (int i = 1; i < argc; i++) {
        char *eq = strchr(argv[i], '=');
        if (!eq) return 9;
        *eq = 0;
        char *k = argv[i], *v = eq + 1;
        if (!strcmp(k, "out")) out = v;
        else if (!strcmp(k, "seed")) seed = strtoull(v, 0, 10);
        else if (!strcmp(k, "n")) n = atol(v);
        else if (!strcmp(k, "maxev")) maxev = atol(v);
        else if (!strcmp(k, "maxco")) p_maxco = atoi(v);
        else if (!strcmp(k, "deep")) p_deep = atoi(v);
        else if (!strcmp(k, "ops")) p_ops = atoi(v);
        else if (!strcmp(k, "async")) p_asy = atoi(v);
        else if (!strcmp(k, "threads")) p_threads = atoi(v);
        else if (!strcmp(k, "flush")) ;
        else return 9;
    }
    if (!out || p_maxco > MAXCO) return 9;
    log_open(out);
    // stacks are far from here only if the memory is; addresses are logged relative to this
    mallopt(M_MMAP_THRESHOLD, 65536);
    base = malloc(1 << 20);
    vt_enable(INT64_C(1000000000000));
    for (long i = 0; i < n; i++) {
        if (maxev && log_count > maxev) break;
        log_ev("{\"e\":\"reset\",\"seed\":%ld}", (long)(seed * 1000 + (uint64_t)i) % 1000000000);
        tseed = seed * UINT64_C(1000003) + (uint64_t)i;
        if (p_threads == 1) run(0, tseed);
        else {
            pthread_t th[8];
            for (int j = 0; j < p_threads; j++) pthread_create(&th[j], 0, thmain, (void*)(intptr_t)j);
            for (int j = 0; j < p_threads; j++) pthread_join(th[j], 0);
        }
        log_ev("{\"e\":\"done\"}");
    }
    log_close();
    return 0;
}
