// Trace driver for streams: each stream has a reading and a writing coroutine
// and a peer that reads, writes and hangs up with plain system calls. Events
// are validated against spec/NecoStream.tla.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sys/socket.h>
#include "neco.h"
#include "vt.h"
#include "mem.h"

int neco_stream_release(neco_stream *stream);
int neco_stream_make_buffered_size(neco_stream **stream, int fd, size_t buffer_size);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);

#define NS 2
#define MS 1000000LL
#define MOD 251
static neco_stream *st[NS + 1];
static int sfd[NS + 1], pfd[NS + 1], cap[NS + 1];
static long pw[NS + 1], uw[NS + 1];     // bytes written by the peer, by the user
static bool pcw[NS + 1], pcr[NS + 1], open_[NS + 1];
static bool busyr[NS + 1], busyw[NS + 1];
static int64_t rid[NS + 1], wid[NS + 1];
static bool ralive[NS + 1], walive[NS + 1];
static uint64_t prng;
static int64_t T0;
static int p_iofault, p_mem = -1, p_bad;

static uint64_t faultseed = 88172645463325252u;
static pthread_mutex_t faultmu = PTHREAD_MUTEX_INITIALIZER;
static int fault(int n) {
    pthread_mutex_lock(&faultmu);
    faultseed ^= faultseed << 13; faultseed ^= faultseed >> 7; faultseed ^= faultseed << 17;
    int r = (int)(faultseed % (uint64_t)n);
    pthread_mutex_unlock(&faultmu);
    return r;
}
static bool isstream(int fd) {
    for (int x = 1; x <= NS; x++) if (open_[x] && fd == sfd[x]) return true;
    return false;
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
    if (p_iofault && isstream(fd) && fault(100) < p_iofault) {
        if (fault(2)) { errno = EINTR; return -1; }
        if (n > 1) n = 1 + (size_t)fault((int)n);
    }
    return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    if (p_iofault && isstream(fd) && fault(100) < p_iofault) {
        if (fault(3) == 0) { errno = fault(2) ? EINTR : EAGAIN; return -1; }
        if (n > 1) n = 1 + (size_t)fault((int)n);
    }
    return __real_write(fd, b, n);
}

static long tnow(void) { return (long)(vt_now() - T0); }
static const char *en(long r) {
    switch (r) {
    case NECO_OK: return "OK";
    case NECO_EOF: return "EOF";
    case NECO_TIMEDOUT: return "TIMEDOUT";
    case NECO_CANCELED: return "CANCELED";
    case NECO_PARTIALWRITE: return "PART";
    case NECO_UNREADFAIL: return "UNREADFAIL";
    case NECO_ERROR: return "ERROR";
    case NECO_INVAL: return "INVAL";
    case NECO_PERM: return "PERM";
    case NECO_CLOSED: return "CLOSED";
    case NECO_NOMEM: return "NOMEM";
    }
    return "OTHER";
}
static void on_idle(int64_t now, int64_t until) {
    char b[64] = "";
    for (int x = 1; x <= NS; x++) {
        if (!open_[x]) continue;
        struct pollfd p = { .fd = sfd[x], .events = POLLOUT };
        poll(&p, 1, 0);
        if (p.revents & (POLLOUT | POLLHUP | POLLERR)) sprintf(b + strlen(b), *b ? ",%d" : "%d", x);
    }
    if (until - T0 > 1900000000) {
        log_ev("{\"e\":\"stuck\",\"t\":2000000000}");
        log_close();
        _exit(7);
    }
    log_ev("{\"e\":\"idle\",\"ww\":[%s],\"u\":%ld,\"t\":%ld}", b, (long)(until - T0), (long)(now - T0));
}
static int64_t pickdl(uint64_t *R, long *d) {
    int r = RN(R, 100);
    if (r < 8) {
        *d = 0;
        return RN(R, 2) ? 0 : -1;
    }
    if (r < 40) { *d = -1; return INT64_MAX; }
    int64_t t = T0 + ((vt_now() - T0) / MS + 2 + RN(R, 4)) * MS;
    *d = (long)(t - T0);
    return t;
}
static int size(uint64_t *R, int x) {
    int k = RN(R, 10), c = cap[x] ? cap[x] : 16;
    if (k < 3) return 1 + RN(R, 4);
    if (k < 6) return 1 + RN(R, 2 * c + 2);
    if (k < 7) return c;
    if (k < 8) return c + 1;
    if (k < 9) return 1 + RN(R, 40);
    return 1 + RN(R, c < 16 ? 100 : c < 64 ? 1500 : 12000);     // a small buffer is flushed piece by piece
}
static const char *bytes(const unsigned char *b, long n, int *first) {
    *first = n > 0 ? b[0] : 0;
    for (long i = 1; i < n; i++) if (b[i] != (b[i - 1] + 1) % MOD) return "false";
    return "true";
}
// calls with invalid arguments: reported as such, and nothing changes
static void bad(int x, uint64_t *R) {
    char b[8];
    neco_stream *s = NULL;
    int k = RN(R, 14);
    int64_t dl = RN(R, 2) ? INT64_MAX : vt_now() + MS;
    long r = 0;
    switch (k) {
    case 0: r = neco_stream_make(NULL, sfd[x]); break;
    case 1: r = neco_stream_make(&s, -1); break;
    case 2: r = neco_stream_make_buffered(NULL, sfd[x]); break;
    case 3: r = neco_stream_make_buffered(&s, -1 - RN(R, 5)); break;
    case 4: r = neco_stream_read_dl(NULL, b, 8, dl); break;
    case 5: r = neco_stream_readfull_dl(NULL, b, 8, dl); break;
    case 6: r = neco_stream_read_byte_dl(NULL, dl); break;
    case 7: r = neco_stream_unread_byte(NULL); break;
    case 8: r = neco_stream_write_dl(NULL, b, 8, dl); break;
    case 9: r = neco_stream_flush_dl(NULL, dl); break;
    case 10: r = neco_stream_close_dl(NULL, dl); break;
    case 11: r = neco_stream_release(NULL); break;
    case 12: r = neco_stream_buffered_read_size(NULL); break;
    case 13: r = neco_stream_buffered_write_size(NULL); break;
    }
    const char *le = en(neco_lasterr());
    log_ev("{\"e\":\"bad\",\"x\":%d,\"k\":%d,\"r\":\"%s\",\"le\":\"%s\",\"same\":%s,\"t\":%ld}", x, k, en(r), le, s ? "false" : "true", tnow());
}
#define GUARD 32
// the value a failed call reports: a plain -1 stands for the last error
static const char *rs(long r) {
    int le = neco_lasterr();
    return r == NECO_ERROR ? en(le) : en(r);
}
static void reader(int argc, void *argv[]) {
    (void)argc;
    int x = (int)(intptr_t)argv[0];
    uint64_t rng = prng ^ ((uint64_t)x * 7717), *R = &rng;
    rid[x] = neco_getid();
    ralive[x] = true;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    int nops = 3 + RN(R, 25);
    for (int i = 0; i < nops; i++) {
        int k = RN(R, 10);
        long d;
        int64_t dl;
        if (p_bad && RN(R, 100) < p_bad) bad(x, R);
        if (k == 0) {
            neco_yield();
        } else if (k <= 2) {
            int r = neco_stream_unread_byte(st[x]);
            const char *le = en(neco_lasterr());
            log_ev("{\"e\":\"unread\",\"x\":%d,\"r\":\"%s\",\"le\":\"%s\",\"bs\":%ld,\"t\":%ld}", x, en(r), le,
                (long)neco_stream_buffered_read_size(st[x]), tnow());
        } else {
            bool full = k >= 8, byte = k >= 6 && !full;
            int n = byte ? 1 : size(R, x);
            if (full && n > 60) n = 60;
            unsigned char *b = malloc((size_t)n + GUARD);
            memset(b, 255, (size_t)n + GUARD);
            dl = pickdl(R, &d);
            log_ev("{\"e\":\"rc\",\"x\":%d,\"o\":\"%s\",\"n\":%d,\"d\":%ld,\"t\":%ld}", x,
                byte ? "byte" : full ? "full" : "read", n, d, tnow());
            busyr[x] = true;
            ssize_t r;
            if (byte) {
                r = d == -1 ? neco_stream_read_byte(st[x]) : neco_stream_read_byte_dl(st[x], dl);
                if (r >= 0) { b[0] = (unsigned char)r; r = 1; }
            } else if (full) {
                r = d == -1 ? neco_stream_readfull(st[x], b, (size_t)n) : neco_stream_readfull_dl(st[x], b, (size_t)n, dl);
            } else {
                r = d == -1 ? neco_stream_read(st[x], b, (size_t)n) : neco_stream_read_dl(st[x], b, (size_t)n, dl);
            }
            busyr[x] = false;
            const char *res = r > 0 ? "OK" : r == 0 ? "ZERO" : rs(r), *le = en(neco_lasterr());
            int first;
            for (long j = r > 0 ? r : 0; j < n + GUARD; j++) if (b[j] != 255) res = "OVERRUN";
            const char *seq = bytes(b, r > 0 ? r : 0, &first);
            log_ev("{\"e\":\"rr\",\"x\":%d,\"r\":\"%s\",\"le\":\"%s\",\"k\":%ld,\"b\":%d,\"seq\":%s,\"bs\":%ld,\"t\":%ld}",
                x, res, le, (long)(r > 0 ? r : 0), first, seq, (long)neco_stream_buffered_read_size(st[x]), tnow());
            free(b);
            if (r <= 0) neco_yield();
        }
    }
    ralive[x] = false;
    // a cancel that no operation reported must be pending
    int r = neco_sleep_dl(INT64_MAX < vt_now() ? 0 : vt_now() + 1);
    log_ev("{\"e\":\"rfin\",\"x\":%d,\"can\":%s,\"t\":%ld}", x, r == NECO_CANCELED ? "true" : "false", tnow());
}
static int wop(int x, int op, uint64_t *R) {       // 0 write, 1 flush, 2 close
    long d;
    int64_t dl = pickdl(R, &d);
    int n = op == 0 ? (RN(R, 40) ? size(R, x) : 0) : 0;
    unsigned char *b = malloc((size_t)n + 1);
    for (int i = 0; i < n; i++) b[i] = (unsigned char)((uw[x] + i) % MOD);
    static const char *names[] = { "write", "flush", "close" };
    log_ev("{\"e\":\"wc\",\"x\":%d,\"o\":\"%s\",\"n\":%d,\"d\":%ld,\"t\":%ld}", x, names[op], n, d, tnow());
    busyw[x] = true;
    errno = 0;
    ssize_t r = op == 0 ? (d == -1 ? neco_stream_write(st[x], b, (size_t)n) : neco_stream_write_dl(st[x], b, (size_t)n, dl)) :
        op == 1 ? (d == -1 ? neco_stream_flush(st[x]) : neco_stream_flush_dl(st[x], dl)) :
        (d == -1 ? neco_stream_close(st[x]) : neco_stream_close_dl(st[x], dl));
    busyw[x] = false;
    int no = errno;
    const char *res = r >= 0 ? "OK" : rs(r), *le = en(neco_lasterr());
    if (r > 0) uw[x] += r;
    if (op == 2) open_[x] = false;
    log_ev("{\"e\":\"wr\",\"x\":%d,\"r\":\"%s\",\"le\":\"%s\",\"k\":%ld,\"bs\":%ld,\"no\":%d,\"t\":%ld}", x, res, le, (long)(r > 0 ? r : 0),
        op == 2 ? 0L : (long)neco_stream_buffered_write_size(st[x]), r < 0 ? no : 0, tnow());
    free(b);
    return (int)r;
}
static void writer(int argc, void *argv[]) {
    (void)argc;
    int x = (int)(intptr_t)argv[0];
    uint64_t rng = prng ^ ((uint64_t)x * 104729), *R = &rng;
    wid[x] = neco_getid();
    walive[x] = true;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    int nops = 3 + RN(R, 18);
    for (int i = 0; i < nops; i++) {
        int k = RN(R, 10);
        if (p_bad && RN(R, 100) < p_bad) bad(x, R);
        if (k < 2) neco_yield();
        else if (wop(x, k < 7 ? 0 : 1, R) < 0) neco_yield();
    }
    walive[x] = false;
    int r = neco_sleep_dl(vt_now() + 1);
    log_ev("{\"e\":\"wfin\",\"x\":%d,\"can\":%s,\"t\":%ld}", x, r == NECO_CANCELED ? "true" : "false", tnow());
}
static bool peer_read(int x, int max) {     // false at the end
    unsigned char *b = malloc((size_t)max);
    ssize_t n = __real_read(pfd[x], b, (size_t)max);
    int first = 0;
    const char *seq = bytes(b, n > 0 ? n : 0, &first);
    const char *end = n > 0 ? "more" : n == 0 ? "eof" : errno == EAGAIN ? "again" : "error";
    log_ev("{\"e\":\"pr\",\"x\":%d,\"k\":%ld,\"b\":%d,\"seq\":%s,\"end\":\"%s\",\"t\":%ld}", x, (long)(n > 0 ? n : 0), first, seq,
        end, tnow());
    free(b);
    return n > 0;
}
static void peer_op(int x, uint64_t *R) {
    switch (RN(R, 8)) {
    case 0: case 1: case 2: {
        if (pcw[x]) break;
        int n = RN(R, 4) ? 1 + RN(R, 30) : 1 + RN(R, 6000);
        unsigned char *b = malloc((size_t)n);
        for (int i = 0; i < n; i++) b[i] = (unsigned char)((pw[x] + i) % MOD);
        ssize_t r = __real_write(pfd[x], b, (size_t)n);
        free(b);
        if (r > 0) {
            pw[x] += r;
            log_ev("{\"e\":\"pw\",\"x\":%d,\"n\":%ld,\"t\":%ld}", x, (long)r, tnow());
        }
        break; }
    case 3: case 4: case 5:
        if (!pcr[x]) peer_read(x, RN(R, 3) ? 1 + RN(R, 60) : 9000);
        break;
    case 6:
        if (RN(R, 6) == 0 && !pcw[x]) {
            pcw[x] = true;
            shutdown(pfd[x], SHUT_WR);
            log_ev("{\"e\":\"pcw\",\"x\":%d,\"t\":%ld}", x, tnow());
        }
        break;
    case 7:
        if (RN(R, 15) == 0 && !pcr[x]) {
            while (peer_read(x, 9000)) {}
            pcr[x] = true;
            log_ev("{\"e\":\"pcr\",\"x\":%d,\"t\":%ld}", x, tnow());
            shutdown(pfd[x], SHUT_RD);
        }
        break;
    }
}
static void drainer(int argc, void *argv[]) {
    (void)argc;
    int x = (int)(intptr_t)argv[0];
    while (open_[x]) {
        neco_sleep(MS);
        if (open_[x]) peer_read(x, 9000);
    }
}
static bool p_cancel = true;
static void boot(int argc, void *argv[]) {
    (void)argc; (void)argv;
    uint64_t rng = prng * 31, *R = &rng;
    mem_started();
    for (int x = 1; x <= NS; x++) {
        int r = cap[x] == 0 ? neco_stream_make(&st[x], sfd[x]) : cap[x] == 4096 ? neco_stream_make_buffered(&st[x], sfd[x]) :
            neco_stream_make_buffered_size(&st[x], sfd[x], (size_t)cap[x]);
        const char *le = en(neco_lasterr());
        log_ev("{\"e\":\"make\",\"x\":%d,\"r\":\"%s\",\"le\":\"%s\",\"t\":%ld}", x, en(r), le, tnow());
        if (r != NECO_OK) { x--; continue; }      // once more
        open_[x] = true;
    }
    for (int x = 1; x <= NS; x++) {
        while (neco_start(reader, 1, (void*)(intptr_t)x) == NECO_NOMEM) {}
        while (neco_start(writer, 1, (void*)(intptr_t)x) == NECO_NOMEM) {}
    }
    // the peers
    for (int i = 0; ; i++) {
        bool any = false;
        for (int x = 1; x <= NS; x++) any |= ralive[x] || walive[x];
        if (!any) break;
        int x = 1 + RN(R, NS);
        if (i > 400 && busyw[x] && !pcr[x]) peer_read(x, 20000);
        else if (i > 400 && busyr[x] && !pcw[x]) {
            pcw[x] = true;
            log_ev("{\"e\":\"pcw\",\"x\":%d,\"t\":%ld}", x, tnow());
            shutdown(pfd[x], SHUT_WR);
        } else peer_op(x, R);
        int k = RN(R, 10);
        if (k == 0 && p_cancel) {
            bool w = RN(R, 2);
            if (w ? walive[x] : ralive[x]) {
                log_ev("{\"e\":\"cancel\",\"x\":%d,\"w\":%s,\"t\":%ld}", x, w ? "true" : "false", tnow());
                neco_cancel(w ? wid[x] : rid[x]);
            }
        } else if (k < 4) neco_sleep(RN(R, 3) * MS + 100000);
        else if (k < 8) neco_yield();
    }
    for (int x = 1; x <= NS; x++) { neco_join(rid[x]); neco_join(wid[x]); }
    for (int x = 1; x <= NS; x++) {
        if (p_mem >= 0 && RN(R, 2)) mem_failpct(0);
        if (RN(R, 6) == 0) {        // let go of it without closing
            open_[x] = false;
            int r = neco_stream_release(st[x]);
            log_ev("{\"e\":\"release\",\"x\":%d,\"r\":\"%s\",\"le\":\"%s\",\"t\":%ld}", x, en(r), en(neco_lasterr()), tnow());
            for (char junk[4096]; __real_read(sfd[x], junk, sizeof(junk)) > 0;) {}
            if (close(sfd[x])) log_ev("{\"e\":\"closedbyrelease\"}");
            if (!pcr[x]) while (peer_read(x, 9000)) {}
            close(pfd[x]);
            continue;
        }
        // make room, flush with the peer reading, close
        while (!pcr[x] && peer_read(x, 9000)) {}
        // closing a socket with unread input would reset the connection
        shutdown(pfd[x], SHUT_WR);
        for (char junk[4096]; __real_read(sfd[x], junk, sizeof(junk)) > 0;) {}
        if (!pcr[x]) while (neco_start(drainer, 1, (void*)(intptr_t)x) == NECO_NOMEM) {}
        wop(x, 2, R);
        if (!pcr[x]) while (peer_read(x, 9000)) {}
        close(pfd[x]);
        if (fcntl(sfd[x], F_GETFD) != -1) log_ev("{\"e\":\"notclosed\"}");
    }
}
static void run_program(uint64_t seed) {
    prng = seed;
    uint64_t R = seed ^ 0x5555;
    memset(pw, 0, sizeof(pw)); memset(uw, 0, sizeof(uw));
    memset(pcw, 0, sizeof(pcw)); memset(pcr, 0, sizeof(pcr));
    memset(busyr, 0, sizeof(busyr)); memset(busyw, 0, sizeof(busyw));
    static const int caps[] = { 0, 1, 2, 3, 4, 7, 8, 16, 16, 64, 4096 };
    T0 = vt_now() + 5000000;
    vt_advance(5000000);
    for (int x = 1; x <= NS; x++) {
        int p[2];
        if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p)) exit(9);
        for (int i = 0; i < 2; i++) setsockopt(p[i], SOL_SOCKET, SO_SNDBUF, &(int){ 4096 }, sizeof(int));
        sfd[x] = p[0]; pfd[x] = p[1];
        cap[x] = caps[RN(&R, 11)];
    }
    log_ev("{\"e\":\"reset\",\"caps\":[%d,%d],\"t\":0}", cap[1], cap[2]);
    int r;
    struct mem_counts mc = { 0 };
    if (p_mem >= 0) mem_begin(0, p_mem, seed);
    r = neco_start(boot, 0);
    if (p_mem >= 0) mem_counts(&mc);
    log_ev("{\"e\":\"done\",\"r\":\"%s\",\"left\":[%ld,%ld,%ld],\"t\":%ld}", en(r), mc.blocks, mc.bad, mc.maps, tnow());
}
int main(int argc, char *argv[]) {
    const char *out = NULL;
    uint64_t seed = 1;
    long n = 100, flush = 0, maxev = 0;
    for (int i = 1; i < argc; i++) {
        char *v = strchr(argv[i], '=');
        if (!v) return 9;
        *v++ = 0;
        if (!strcmp(argv[i], "out")) out = v;
        else if (!strcmp(argv[i], "seed")) seed = strtoull(v, 0, 10);
        else if (!strcmp(argv[i], "n")) n = atol(v);
        else if (!strcmp(argv[i], "maxev")) maxev = atol(v);
        else if (!strcmp(argv[i], "iofault")) p_iofault = atoi(v);
        else if (!strcmp(argv[i], "cancel")) p_cancel = atoi(v);
        else if (!strcmp(argv[i], "mem")) p_mem = atoi(v);
        else if (!strcmp(argv[i], "bad")) p_bad = atoi(v);
        else if (!strcmp(argv[i], "flush")) flush = atol(v);
        else return 9;
    }
    if (!out) return 9;
    log_open(out);
    vt_enable(INT64_C(1000000000000));
    vt_idle = on_idle;
    if (p_mem >= 0) mem_install();
    for (long i = 0; i < n; i++) {
        if (maxev && log_count > maxev) break;
        run_program(seed * UINT64_C(1000003) + (uint64_t)i);
        if (flush) log_flush();
    }
    log_close();
    return 0;
}
