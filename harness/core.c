// Trace driver for the core of neco: runs randomly generated coroutine
// programs against the real library under a virtual clock and records every
// call, return and instantaneous act as one JSON event per line. The events
// are validated against spec/NecoCore.tla by spec/TraceCore.tla.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/socket.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/epoll.h>
#include "neco.h"
#include "vt.h"
#include "mem.h"
#include "perm.h"

// Built with THREADED, several threads run programs of their own at the same
// time, each with its own clock and trace.
#ifdef THREADED
#define TL __thread
#else
#define TL
#endif

int neco_mutex_destroy(neco_mutex *mutex);
int neco_waitgroup_destroy(neco_waitgroup *);
int neco_cond_destroy(neco_cond *);
int __real_nanosleep(const struct timespec *, struct timespec *);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);

#define MAXCO 100
static int NCO = 8;
#define MAXCH 9
#define NMU 3
#define NCV 2
#define NWG 2
#define NSIGS 3
#define NPIN 3
#define MAXH 6
#define BUFSZ 700
static int64_t p_tscale = 1;      // real (virtual) nanoseconds per unit of logged time
#define MS (1000000LL * p_tscale)

enum op { O_YIELD, O_START, O_SLEEP, O_JOIN, O_SUSPEND, O_RESUME, O_CANCEL, O_SEND,
    O_BCAST, O_RECV, O_TRYRECV, O_CLOSE, O_SELECT, O_TRYSELECT, O_GYIELD, O_GNEXT,
    O_GSTART, O_GCLOSE, O_LOCK, O_RDLOCK, O_TRYLOCK, O_TRYRDLOCK, O_UNLOCK, O_MDESTROY,
    O_CWAIT, O_CSIG, O_CBC, O_WGADD, O_WGDONE, O_WGWAIT, O_SETCS, O_SETCT, O_PUSH, O_POP,
    O_EXIT, O_STATS, O_IDS, O_SPIN, O_BAD, O_SIGWAIT, O_WATCH, O_UNWATCH, O_RAISE, O_WORK,
    O_REF, O_UNREF, O_REMAKE, O_PERM, O_READ, O_WRITE, O_FDWAIT, O_FDCLOSEW, O_FDCLOSER, O_RENEW, NOPS };
static const char *opname[] = { "yield", "start", "sleep", "join", "suspend", "resume",
    "cancel", "send", "bcast", "recv", "tryrecv", "close", "select", "tryselect", "gyield",
    "gnext", "gstart", "gclose", "lock", "rdlock", "trylock", "tryrdlock", "unlock",
    "mdestroy", "cwait", "csig", "cbc", "wgadd", "wgdone", "wgwait", "setcs", "setct", "push",
    "pop", "exit", "stats", "ids", "spin", "bad", "sigwait", "watch", "unwatch", "raise",
    "work", "ref", "unref", "remake", "perm", "read", "write", "fdwait", "closew", "closer", "renew" };
static int weight[NOPS];

// profile parameters
static int p_nch = 3, p_ngen = 2, p_maxops = 10, p_maxstart = 12, p_horizon = 14;
static int p_dlinf = 40, p_dlpast = 8;       // percent
static int p_async = 40, p_disabled = 10;    // percent of programs with that default
static int p_capmax = 3, p_maxargs = 6, p_nhot = 0, p_initial = 4, p_allinit = 0;

struct cos {
    bool used, alive;
    int64_t id;
    int gen;                 // generator channel or 0
    uint64_t rng;
    bool cen, asy;
    int nh, hid[MAXH];       // pushed cleanup handlers
    char hbuf[MAXH][32] __attribute__((aligned(16)));
    char outer[32] __attribute__((aligned(16)));
    int inh;                 // inside of a handler (nesting)
    int cwm;                 // mutex of the current cond wait
    uint32_t sw;
    int nuse, use[16];       // channels in use by a blocking operation
    int usex, usedir;          // stream end in use (async termination)
    int nargs;
    void *args[16];
};
static TL struct cos co[MAXCO + 1];
static TL int64_t T0;
static TL bool stop;
static TL int nch, ngen;
static TL neco_chan *ch[MAXCH + 1];
static TL int refs[MAXCH + 1];      // extra references
static int p_bigcap;
static int p_mem, p_memenum, p_memfail, p_maxsel;
static long memfailat, memallocs, memstartup;
static TL int chsize[MAXCH + 1], chcap[MAXCH + 1];
static TL neco_mutex mu[NMU + 1];
static TL neco_cond cv[NCV + 1];
static TL neco_waitgroup wg[NWG + 1];
static TL int nwgwait[NWG + 1], ncvwait[NCV + 1];
static TL int wholder[NMU + 1], rholder[NMU + 1][MAXCO + 1];
static TL int nstarts, gensused, hcount, msgcount, starting;
static bool denv_asy, denv_cen;
static TL uint64_t prng;
static TL int64_t pinno[NPIN + 1];      // the numbers that work is pinned to
static int sigs[NSIGS + 1] = { 0, SIGUSR1, SIGUSR2, SIGALRM };
static int profsig, profwork, profio;
// byte streams: 1, 2 are pipes, 3 and 4 the two directions of a socket pair
#define NST 4
static TL int rfd[NST + 1], wfd[NST + 1], ruse[NST + 1], wuse[NST + 1];
static TL bool wcl[NST + 1], rcl[NST + 1];
static TL long wbase[NST + 1][MAXCO + 1];
static TL unsigned lastrr, lastww;
static int p_bigio = 15;       // percent of transfers that exceed the kernel's buffers
static long maxev;

// faults of the system calls below the library
static int p_iofault, p_pcfail, p_wfifo = 1;    // percent, percent, bool
static uint64_t faultseed = 88172645463325252u;
static pthread_mutex_t faultmu = PTHREAD_MUTEX_INITIALIZER;
static int fault(int n) {
    pthread_mutex_lock(&faultmu);
    faultseed ^= faultseed << 13; faultseed ^= faultseed >> 7; faultseed ^= faultseed << 17;
    int r = (int)(faultseed % (uint64_t)n);
    pthread_mutex_unlock(&faultmu);
    return r;
}
static bool isstream(int fd) {
    if (!profio || !rfd[1]) return false;
    for (int x = 1; x <= NST; x++) if (fd == rfd[x] || fd == wfd[x]) return true;
    return false;
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
    if (p_iofault && isstream(fd) && fault(100) < p_iofault) {
        if (fault(2)) { errno = EINTR; return -1; }
        if (n > 1) n = 1 + (size_t)fault((int)n);
    }
    return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    if (p_iofault && isstream(fd) && fault(100) < p_iofault) {
        if (fault(3) == 0) { errno = fault(2) ? EINTR : EAGAIN; return -1; }
        if (n > 1) n = 1 + (size_t)fault((int)n);
    }
    return __real_write(fd, b, n);
}
// the event queue cannot be made, or does not take another descriptor
static int p_evfault;
static TL long nevfault;
int __real_epoll_create1(int), __real_epoll_ctl(int, int, int, struct epoll_event *);
int __wrap_epoll_create1(int f) {
    if (p_evfault && fault(100) < p_evfault) { nevfault++; errno = EMFILE; return -1; }
    return __real_epoll_create1(f);
}
int __wrap_epoll_ctl(int q, int op, int fd, struct epoll_event *e) {
    // the scheduler's own calls only change what is there
    if (p_evfault && neco_getid() > 0 && fault(100) < p_evfault) { nevfault++; errno = ENOSPC; return -1; }
    return __real_epoll_ctl(q, op, fd, e);
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *u) {
    if (p_pcfail && fault(100) < p_pcfail) return EAGAIN;
    return __real_pthread_create(t, a, f, u);
}

// an idle worker thread gives up early: its replacement comes and goes often
static int p_wtmo;                      // percent
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (p_wtmo && fault(100) < p_wtmo) {
        int us = fault(3) * 60;
        pthread_mutex_unlock(m);
        if (us) {
            struct timespec t = { .tv_nsec = us * 1000L };
            __real_nanosleep(&t, 0);
        } else sched_yield();
        pthread_mutex_lock(m);
        return ETIMEDOUT;
    }
    return __real_pthread_cond_timedwait(c, m, ts);
}

#define MAXID (1 << 22)
static unsigned char *idslot;    // id -> slot
static TL int oldslotid_n;
static TL int64_t oldids[64];       // ids of finished coroutines

static const char *en(long r) {
    switch (r) {
    case 0: return "OK";
    case NECO_ERROR: return "ERROR";
    case NECO_INVAL: return "INVAL";
    case NECO_PERM: return "PERM";
    case NECO_NOMEM: return "NOMEM";
    case NECO_EOF: return "EOF";
    case NECO_NOTFOUND: return "NOTFOUND";
    case NECO_NOSIGWATCH: return "NOSIGWATCH";
    case NECO_CLOSED: return "CLOSED";
    case NECO_EMPTY: return "EMPTY";
    case NECO_TIMEDOUT: return "TIMEDOUT";
    case NECO_CANCELED: return "CANCELED";
    case NECO_BUSY: return "BUSY";
    case NECO_NEGWAITGRP: return "NEGWAITGRP";
    case NECO_GAIERROR: return "GAIERROR";
    case NECO_UNREADFAIL: return "UNREADFAIL";
    case NECO_PARTIALWRITE: return "PART";
    case NECO_NOTGENERATOR: return "NOTGENERATOR";
    case NECO_NOTSUSPENDED: return "NOTSUSPENDED";
    }
    return r > 0 ? "POS" : "UNKNOWN";
}
static void io_poll(void);
#define SLACK 1001000       // as in NecoCore.tla
static long lt(int64_t t) { return (long)((t - T0) / p_tscale); }     // logged time
static long tnow(void) { return lt(vt_now()); }
static bool takeid(int64_t id, int c) {
    unsigned char none = 0;
    return id > 0 && id < MAXID && __atomic_compare_exchange_n(&idslot[id], &none, (unsigned char)c, false,
        __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
}
static int slotof(int64_t id) {
    if (id == 0) return 0;
    if (id < 0 || id >= MAXID || !idslot[id]) return 99;
    return idslot[id];
}

static void stuck(void) {
    log_ev("{\"e\":\"stuck\",\"t\":2000000000}");
    log_close();
    _exit(7);
}
static void io_poll(void) {
    if (!profio || !rfd[1]) return;
    struct pollfd p[2 * NST];
    for (int x = 1; x <= NST; x++) {
        p[x - 1] = (struct pollfd){ 
            .fd = rcl[x] && x <= 2 ? -1 : rfd[x], .events = POLLIN };
        p[NST + x - 1] = (struct pollfd){ .fd = wcl[x] && x <= 2 ? -1 : wfd[x], .events = POLLOUT };
    }
    poll(p, 2 * NST, 0);
    unsigned rr = 0, ww = 0;
    for (int x = 1; x <= NST; x++) {
        if (p[x - 1].revents & (POLLIN | POLLHUP | POLLERR)) rr |= 1u << x;
        if (p[NST + x - 1].revents & (POLLOUT | POLLHUP | POLLERR)) ww |= 1u << x;
    }
    if (rr != lastrr || ww != lastww) {
        char a[32] = "", b[32] = "";
        for (int x = 1; x <= NST; x++) {
            if (rr >> x & 1) sprintf(a + strlen(a), *a ? ",%d" : "%d", x);
            if (ww >> x & 1) sprintf(b + strlen(b), *b ? ",%d" : "%d", x);
        }
        log_ev("{\"e\":\"ready\",\"rr\":[%s],\"ww\":[%s],\"t\":%ld}", a, b, tnow());
        lastrr = rr; lastww = ww;
    }
}
static void io_open(void) {
    lastrr = lastww = 0;
    for (int x = 1; x <= 2; x++) {
        int p[2];
        if (pipe2(p, O_NONBLOCK)) exit(9);
        fcntl(p[1], F_SETPIPE_SZ, 4096);
        rfd[x] = p[0]; wfd[x] = p[1];
    }
    int p[2];
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p)) exit(9);
    for (int i = 0; i < 2; i++) setsockopt(p[i], SOL_SOCKET, SO_SNDBUF, &(int){ 4096 }, sizeof(int));
    rfd[3] = wfd[4] = p[0];
    wfd[3] = rfd[4] = p[1];
    memset(wcl, 0, sizeof(wcl)); memset(rcl, 0, sizeof(rcl));
    memset(ruse, 0, sizeof(ruse)); memset(wuse, 0, sizeof(wuse));
    memset(wbase, 0, sizeof(wbase));
}
static void io_close(void) {
    for (int x = 1; x <= 2; x++) {
        if (!rcl[x]) close(rfd[x]);
        if (!wcl[x]) close(wfd[x]);
    }
    close(rfd[3]); close(rfd[4]);
    memset(rfd, 0, sizeof(rfd));
}
static void io_closew(int x) {
    if (wcl[x]) return;
    wcl[x] = true;
    if (x <= 2) close(wfd[x]); else shutdown(wfd[x], SHUT_WR);
    log_ev("{\"e\":\"closew\",\"x\":%d,\"t\":%ld}", x, tnow());
}
static void io_closer(int x) {
    if (rcl[x]) return;
    rcl[x] = true;
    if (x <= 2) close(rfd[x]); else shutdown(rfd[x], SHUT_RD);
    log_ev("{\"e\":\"closer\",\"x\":%d,\"t\":%ld}", x, tnow());
}
// describe received bytes as runs of consecutive bytes of the same writer
static TL char runsbuf[1 << 16];
static const char *runs(const unsigned char *b, long n) {
    char *o = runsbuf;
    *o = 0;
    for (long i = 0; i < n; ) {
        long j = i + 1;
        while (j < n && b[j] >> 5 == b[i] >> 5 && (b[j] & 31) == ((b[j - 1] + 1) & 31)) j++;
        if (o - runsbuf > (long)sizeof(runsbuf) - 64) break;
        o += sprintf(o, o == runsbuf ? "[%d,%d,%ld]" : ",[%d,%d,%ld]", b[i] >> 5 ? b[i] >> 5 : 8, b[i] & 31, j - i);
        i = j;
    }
    return runsbuf;
}
static void ev_ioret(int c, const char *r, long n, const char *rs) {
    int le = neco_lasterr();
    const char *l = en(le);
    if (!strcmp(r, "EOF") && le == 0) l = "EOF";
    if (!strcmp(r, "EVERR") && le == NECO_ERROR) l = r;
    io_poll();
    log_ev("{\"e\":\"ret\",\"c\":%d,\"r\":\"%s\",\"i\":%ld,\"v\":0,\"runs\":[%s],\"le\":\"%s\",\"t\":%ld}",
        c, r, n, rs, l, tnow());
}
static void on_idle(int64_t now, int64_t until) {
    io_poll();
    if (lt(until) > 1900000000) stuck();
    // the tolerance of the specification is in unscaled time
    log_ev("{\"e\":\"idle\",\"t\":%ld,\"u\":%ld}", lt(now), p_tscale == 1 ? lt(until) : lt(until - SLACK) + SLACK);
}
static bool on_spin(int64_t now, long n) {
    io_poll();              // what has just become ready counts as an event
    return log_if(n, "{\"e\":\"spin\",\"t\":%ld}", lt(now));
}

static void ev_call(int c, const char *o, int x, int m, long v, long d, const char *xs) {
    io_poll();
    log_ev("{\"e\":\"call\",\"c\":%d,\"o\":\"%s\",\"x\":%d,\"m\":%d,\"v\":%ld,\"d\":%ld,\"xs\":[%s],\"t\":%ld}",
        c, o, x, m, v, d, xs ? xs : "", tnow());
}
static void ev_ret(int c, long r, long i, long v) {
    int le = neco_lasterr();
    io_poll();
    log_ev("{\"e\":\"ret\",\"c\":%d,\"r\":\"%s\",\"i\":%ld,\"v\":%ld,\"le\":\"%s\",\"t\":%ld}",
        c, en(r), i, v, en(le), tnow());
}

// choose a deadline; *d gets the offset for the log (-1: none)
static int64_t pickdl(int c, long *d) {
    struct cos *k = &co[c];
    int r = RN(&k->rng, 100);
    bool must = c == 1 || !k->cen || k->inh;
    if (r < p_dlpast) {
        *d = 0;
        switch (RN(&k->rng, 4)) {
        case 0: return 0;
        case 1: return INT64_MIN;
        case 2: return -1;
        default: { int64_t t = vt_now() - 1 - RN(&k->rng, 1000000) * p_tscale;
            *d = t > T0 ? lt(t) : 0; return t; }
        }
    }
    if (r < p_dlpast + p_dlinf && !must) {
        *d = -1;
        if (RN(&k->rng, 4) == 0) {      // as good as never
            static const int64_t far[] = { INT64_MAX - 1, INT64_MAX - 1000, INT64_MAX / 2, INT64_C(1) << 60, INT64_C(1) << 52 };
            return far[RN(&k->rng, 5)];
        }
        return INT64_MAX;
    }
    int64_t t = T0 + ((vt_now() - T0) / MS + 2 + RN(&k->rng, 3)) * MS;
    *d = lt(t);
    return t;
}

// messages
static long mkmsg(int x, char *buf) {
    int sz = chsize[x];
    long v = ++msgcount;
    if (sz == 0) v = 0;
    else if (sz == 1) v &= 0xff;
    else if (sz < 4) v &= 0xffff;
    memset(buf, 0x5a, BUFSZ);
    for (int i = 0; i < sz; i++) {
        buf[i] = i < 4 ? (char)(v >> (8 * i)) : (char)(v * 31 + i);
    }
    return v;
}
static long rdmsg(int x, const char *buf, bool ok) {
    int sz = chsize[x];
    for (int i = sz; i < BUFSZ; i++) {
        if (buf[i] != 0x5b) return -99;     // written beyond the message
    }
    if (!ok) return 0;
    long v = 0;
    for (int i = 0; i < sz && i < 4; i++) v |= (long)(unsigned char)buf[i] << (8 * i);
    for (int i = 4; i < sz; i++) {
        if (buf[i] != (char)(v * 31 + i)) return -98;
    }
    return v;
}
#define RBUF(b) char b[BUFSZ]; memset(b, 0x5b, BUFSZ)

static void interp(int c, int nops);
static void do_op(int c, int op);

static void outer_handler(void *arg) {
    int c = (int)(intptr_t)arg;
    struct cos *k = &co[c];
    if (k->cwm) wholder[k->cwm] = c;
    if (k->usedir == 1) ruse[k->usex]--;
    if (k->usedir == 2) wuse[k->usex]--;
    k->usedir = 0;
    k->nuse = 0;
    k->alive = false;
    if (oldslotid_n < 64) oldids[oldslotid_n++] = k->id;
    log_ev("{\"e\":\"aexit\",\"c\":%d,\"t\":%ld}", c, tnow());
}

static void release_some(int c) {
    for (int m = 1; m <= NMU; m++) {
        if (wholder[m] == c || rholder[m][c]) {
            if (wholder[m] == c) wholder[m] = 0; else rholder[m][c]--;
            ev_call(c, "unlock", m, 0, 0, -1, 0);
            int r = neco_mutex_unlock(&mu[m]);
            ev_ret(c, r, 0, 0);
        }
    }
}

static void handler(void *arg) {
    int c = (int)((intptr_t)arg & 255), h = (int)((intptr_t)arg >> 8);
    struct cos *k = &co[c];
    k->inh++;
    k->nuse = 0;
    // forget about the handlers from this one on
    for (int i = 0; i < k->nh; i++) {
        if (k->hid[i] == h) k->nh = i;
    }
    if (k->cwm) { wholder[k->cwm] = c; k->cwm = 0; }
    log_ev("{\"e\":\"hb\",\"c\":%d,\"h\":%d,\"t\":%ld}", c, h, tnow());
    int r = RN(&k->rng, 4);
    if (r == 0) release_some(c);
    else if (r == 1 && !stop) {
        static const int hops[] = { O_YIELD, O_SLEEP, O_TRYRECV, O_SEND, O_WGDONE, O_CSIG, O_STATS, O_LOCK };
        do_op(c, hops[RN(&k->rng, 8)]);
    }
    log_ev("{\"e\":\"he\",\"c\":%d,\"h\":%d,\"t\":%ld}", c, h, tnow());
    k->inh--;
}

static void popone(int c) {
    struct cos *k = &co[c];
    int h = k->hid[k->nh - 1], ex = RN(&k->rng, 2);
    k->nh--;
    log_ev("{\"e\":\"pop\",\"c\":%d,\"h\":%d,\"x\":%s,\"t\":%ld}", c, h, ex ? "true" : "false", tnow());
    static const int yes[] = { 1, 1, 2, -1, 256, INT_MIN };
    __neco_c1(ex ? yes[RN(&k->rng, 6)] : 0);
}

static void co_entry(int argc, void *argv[]) {
    int c = argc > 0 ? (int)(intptr_t)argv[0] : starting;
    bool ok = c >= 1 && c <= NCO && argc == co[c].nargs;
    for (int i = 0; ok && i < argc; i++) ok = argv[i] == co[c].args[i];
    struct cos *k = &co[c];
    k->id = neco_getid();
    if (!takeid(k->id, c)) ok = false;
    if (k->gen && !ch[k->gen]) ok = false;
    int ct = 0, cs = 0;
    int64_t li = neco_lastid();
    neco_setcanceltype(NECO_CANCEL_INLINE, &ct);
    neco_setcanceltype(ct, 0);
    neco_setcancelstate(NECO_CANCEL_DISABLE, &cs);
    neco_setcancelstate(cs, 0);
    k->asy = ct == NECO_CANCEL_ASYNC;
    k->cen = cs == NECO_CANCEL_ENABLE;
    k->alive = true;
    log_ev("{\"e\":\"begin\",\"c\":%d,\"p\":%d,\"li\":%d,\"ct\":%s,\"cs\":%s,\"ok\":%s,\"t\":%ld}",
        c, slotof(neco_starterid()), slotof(li), k->asy ? "true" : "false",
        k->cen ? "true" : "false", ok ? "true" : "false", tnow());
    __neco_c0(k->outer, outer_handler, (void*)(intptr_t)c);
    interp(c, 2 + RN(&k->rng, p_maxops));
    while (k->nh > 0) popone(c);
    __neco_c1(0);
    k->alive = false;
    if (oldslotid_n < 64) oldids[oldslotid_n++] = k->id;
    log_ev("{\"e\":\"end\",\"c\":%d,\"t\":%ld}", c, tnow());
}

static void prep_slot(int s, int g) {
    struct cos *k = &co[s];
    memset(k, 0, sizeof(*k));
    k->used = true;
    k->gen = g;
    k->rng = prng ^ ((uint64_t)(nstarts + 1) * UINT64_C(0x9e3779b97f4a7c15));
    nstarts++;
    k->nargs = RN(&k->rng, p_maxargs + 1);
    k->args[0] = (void*)(intptr_t)s;
    for (int i = 1; i < 16; i++) k->args[i] = (void*)(intptr_t)rng_next(&k->rng);
    starting = s;
}

static int call_start(struct cos *k, int variant) {
    void **a = k->args;
    if (variant) return neco_startv(co_entry, k->nargs, a);
    switch (k->nargs) {
    case 0: return neco_start(co_entry, 0);
    case 1: return neco_start(co_entry, 1, a[0]);
    case 2: return neco_start(co_entry, 2, a[0], a[1]);
    case 3: return neco_start(co_entry, 3, a[0], a[1], a[2]);
    case 4: return neco_start(co_entry, 4, a[0], a[1], a[2], a[3]);
    case 5: return neco_start(co_entry, 5, a[0], a[1], a[2], a[3], a[4]);
    default: k->nargs = 6; return neco_start(co_entry, 6, a[0], a[1], a[2], a[3], a[4], a[5]);
    }
}
static int call_gstart(neco_gen **g, size_t sz, struct cos *k, int variant) {
    void **a = k->args;
    if (variant || k->nargs > 3) return neco_gen_startv(g, sz, co_entry, k->nargs, a);
    switch (k->nargs) {
    case 0: return neco_gen_start(g, sz, co_entry, 0);
    case 1: return neco_gen_start(g, sz, co_entry, 1, a[0]);
    case 2: return neco_gen_start(g, sz, co_entry, 2, a[0], a[1]);
    default: return neco_gen_start(g, sz, co_entry, 3, a[0], a[1], a[2]);
    }
}

static int freeslot(void) {
    for (int i = 2; i <= NCO; i++) if (!co[i].used) return i;
    for (int i = 2; i <= NCO; i++) if (!co[i].alive) return i;
    return 0;
}

#define MAXTH 8
static struct perm_objs pub[MAXTH];      // objects of the runtimes of other threads
static int64_t pubid[MAXTH];
static pthread_barrier_t bar;
static TL int me;
static TL neco_chan *oldch;              // objects of the previous runtime of this thread
static TL neco_stream *oldst;
static TL neco_mutex oldmu;
static TL neco_cond oldcv;
static TL neco_waitgroup oldwg;
static int p_threads = 1;

// a target for join/cancel/resume: mostly a live other coroutine, sometimes a
// finished or unknown id (slot 0)
static int64_t picktarget(int c, int *slot, bool suspended) {
    (void)suspended;
    uint64_t *r = &co[c].rng;
    int q = RN(r, 12);
    if (q == 0) {
        *slot = 0;
        if (oldslotid_n > 0 && RN(r, 3)) {
            // an old id may still be that of the latest coroutine of its slot
            int64_t id = oldids[RN(r, oldslotid_n)];
            return id;
        }
        static const int64_t odd[] = { 0, -1, INT64_MAX, INT64_MIN, 1 << 30 };
        if (p_threads > 1 && RN(r, 2)) {
            // a coroutine of another runtime
            int th = RN(r, p_threads);
            if (th != me) return pubid[th];
        }
        return odd[RN(r, 5)];
    }
    int live[MAXCO], n = 0;
    for (int i = 2; i <= NCO; i++) if (co[i].alive && (i != c || q == 1)) live[n++] = i;
    if (n == 0) { *slot = 0; return oldslotid_n ? oldids[0] : 0; }
    *slot = live[RN(r, n)];
    return co[*slot].id;
}

// ------------------------------------------------------------ background work
static pthread_mutex_t thmu = PTHREAD_MUTEX_INITIALIZER;
static long thids[256];
static int nthids;
static int thindex(void) {
    long id = syscall(SYS_gettid);
    pthread_mutex_lock(&thmu);
    int i;
    for (i = 0; i < nthids; i++) if (thids[i] == id) break;
    if (i == nthids && nthids < 256) thids[nthids++] = id;
    pthread_mutex_unlock(&thmu);
    return i + 1;
}
struct wk { int c; int us; int pin; };
int __real_clock_gettime(clockid_t, struct timespec *);
static double lastwork[NPIN + 1];      // real time of the last work, per pin
static double realnow(void) {
    struct timespec ts;
    __real_clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}
static void outside(const char *what, int n, uint64_t *R);
static void workfn(void *ud) {
    struct wk *w = ud;
    // an idle worker thread may end after one second (real time): unknown (0)
    int th = p_wtmo || (w->pin && realnow() - lastwork[w->pin] > 0.4) ? 0 : thindex();
    if (w->pin) lastwork[w->pin] = realnow();
    if (syscall(SYS_gettid) == getpid()) th = -1;
    log_ev("{\"e\":\"wb\",\"c\":%d,\"th\":%d,\"t\":%ld}", w->c, th, tnow());
    if (w->us) {
        struct timespec ts = { .tv_nsec = w->us * 1000L };
        __real_nanosleep(&ts, 0);
    }
    if (w->pin) lastwork[w->pin] = realnow();
    if (weight[O_PERM]) {
        uint64_t R = (uint64_t)w->c * 77 + (uint64_t)log_count;
        outside("wouts", 1, &R);
    }
    log_ev("{\"e\":\"we\",\"c\":%d,\"t\":%ld}", w->c, tnow());
}

// Many channels are made and released in another order (more than the library
// keeps for reuse).
static int chanburst(uint64_t *R) {
    static TL neco_chan *b[700];
    int n = RN(R, 3) ? 1 + RN(R, 40) : 257 + RN(R, 400), bad = 0;
    int size = RN(R, 2) ? 0 : RN(R, 9);
    for (int i = 0; i < n; i++) {
        int cap = RN(R, 3) ? 0 : RN(R, 3);
        int r = neco_chan_make(&b[i], (size_t)size, (size_t)cap);
        if (r == NECO_NOMEM && p_mem) { n = i; break; }
        if (r != NECO_OK) { n = i; bad = 1; break; }
        if (RN(R, 2)) bad |= neco_chan_retain(b[i]) != NECO_OK || neco_chan_release(b[i]) != NECO_OK;
    }
    while (n) {
        int i = RN(R, n);
        bad |= neco_chan_release(b[i]) != NECO_OK;
        b[i] = b[--n];
    }
    bad |= neco_chan_retain(ch[1]) != NECO_OK || neco_chan_release(ch[1]) != NECO_OK;
    return bad ? NECO_ERROR : NECO_OK;
}

// -------------------------------------------------- calls with invalid arguments
static int badcall(int i) {
    char b[16];
    neco_chan *c = 0; neco_gen *g = 0;
    (void)g;
    switch (i) {
    case 0: return neco_start(NULL, 0);
    case 1: return neco_start(co_entry, -1);
    case 2: return neco_chan_make(NULL, 4, 0);
    case 3: return neco_chan_make(&c, (size_t)INT_MAX + 1, 0);
    case 4: return neco_chan_make(&c, 4, (size_t)INT_MAX + 1);
    case 5: return neco_chan_send(NULL, b);
    case 6: return neco_chan_recv(NULL, b);
    case 7: return neco_chan_tryrecv(NULL, b);
    case 8: return neco_chan_close(NULL);
    case 9: return neco_chan_broadcast(NULL, b);
    case 10: return neco_chan_retain(NULL);
    case 11: return neco_chan_release(NULL);
    case 12: return neco_chan_select(1, NULL);
    case 13: return neco_chan_tryselect(2, ch[1], NULL);
    case 14: return neco_chan_selectv(-1, NULL);
    case 15: return neco_chan_case(NULL, b);
    case 16: return neco_gen_next(NULL, b);
    case 17: return neco_gen_close(NULL);
    case 18: return neco_gen_start(NULL, 4, co_entry, 0);
    case 19: return neco_mutex_lock(NULL);
    case 20: return neco_mutex_trylock(NULL);
    case 21: return neco_mutex_rdlock(NULL);
    case 22: return neco_mutex_tryrdlock(NULL);
    case 23: return neco_mutex_unlock(NULL);
    case 24: return neco_mutex_init(NULL);
    case 25: return neco_waitgroup_add(NULL, 1);
    case 26: return neco_waitgroup_done(NULL);
    case 27: return neco_waitgroup_wait(NULL);
    case 28: return neco_waitgroup_init(NULL);
    case 29: return neco_cond_signal(NULL);
    case 30: return neco_cond_broadcast(NULL);
    case 31: return neco_cond_wait(NULL, &mu[1]);
    case 32: return neco_cond_wait(&cv[1], NULL);
    case 33: return neco_cond_init(NULL);
    case 34: return neco_signal_watch(0);
    case 35: return neco_signal_watch(32);
    case 36: return neco_signal_unwatch(-1);
    case 37: return neco_setcanceltype(NECO_CANCEL_ENABLE, 0);
    case 38: return neco_setcanceltype(0, 0);
    case 39: return neco_setcancelstate(NECO_CANCEL_ASYNC, 0);
    case 40: return neco_setcancelstate(99, 0);
    case 41: return neco_wait(0, 0);
    case 42: return neco_wait(0, 3);
    case 43: return neco_getstats(NULL);
    case 44: return neco_work(-1, NULL, NULL);
    case 45: return neco_rand(b, 4, 99);
    case 46: return (int)neco_stream_read(NULL, b, 1);
    case 47: return neco_stream_flush(NULL);
    case 48: return neco_stream_close(NULL);
    case 49: return neco_gen_retain(NULL);
    case 50: return neco_gen_release(NULL);
    case 51: return neco_chan_send_dl(NULL, b, 0);
    case 52: return neco_mutex_lock_dl(NULL, 0);
    case 53: return neco_waitgroup_wait_dl(NULL, 0);
    case 54: return (int)neco_stream_write(NULL, b, 1);
    case 55: return neco_stream_read_byte(NULL);
    case 56: return neco_stream_unread_byte(NULL);
    }
    return NECO_INVAL;
}
#define NBAD 57

// ------------------------------------------------- where it is not permitted
static void outside(const char *what, int n, uint64_t *R) {
    neco_mutex m, m0; neco_cond v, v0; neco_waitgroup w, w0;
    memset(&m, 0, sizeof(m)); m0 = m;
    memset(&v, 0, sizeof(v)); v0 = v;
    memset(&w, 0, sizeof(w)); w0 = w;
    if (!oldch) return;
    for (int i = 0; i < n; i++) {
        int k = RN(R, PERM_N);
        struct perm_objs o = { .chan = oldch, .mu = &m, .cv = &v, .wg = &w, .st = oldst };
        if (RN(R, 2)) { o.mu = &oldmu; o.cv = &oldcv; o.wg = &oldwg; }
        long r = perm_call(k, &o);
        int le = neco_lasterr();
        bool same = !memcmp(&m, &m0, sizeof(m)) && !memcmp(&v, &v0, sizeof(v)) && !memcmp(&w, &w0, sizeof(w));
        log_ev("{\"e\":\"%s\",\"k\":%d,\"r\":\"%s\",\"le\":\"%s\",\"same\":%s}", what, k, en(r), en(le), same ? "true" : "false");
    }
}

static void io_op(int c, int op);
static void do_op(int c, int op) {
    if (op >= O_READ && op <= O_FDCLOSER) {
        io_op(c, op);
        return;
    }
    struct cos *k = &co[c];
    uint64_t *R = &k->rng;
    long d = -1;
    int64_t dl;
    int r, x, m;
    switch (op) {
    case O_YIELD:
        ev_call(c, "yield", 0, 0, 0, -1, 0);
        r = neco_yield();
        ev_ret(c, r, 0, 0);
        break;
    case O_START: case O_GSTART: {
        int g = 0;
        x = freeslot();
        if (!x || nstarts >= p_maxstart) break;
        if (op == O_GSTART) {
            if (gensused >= ngen) break;
            g = nch + ++gensused;
        }
        prep_slot(x, g);
        ev_call(c, "start", x, g, 0, -1, 0);
        if (g) r = call_gstart((neco_gen**)&ch[g], (size_t)chsize[g], &co[x], RN(R, 2));
        else r = call_start(&co[x], RN(R, 2));
        if (g && r != NECO_OK) ch[g] = NULL;
        { int le = neco_lasterr();
          int li = slotof(neco_lastid());
          log_ev("{\"e\":\"ret\",\"c\":%d,\"r\":\"%s\",\"i\":%d,\"v\":0,\"le\":\"%s\",\"t\":%ld}",
            c, en(r), li, en(le), tnow()); }
        break; }
    case O_SLEEP: {
        int rel = RN(R, 3);
        if (rel == 0) {
            int64_t ns = RN(R, 10) == 0 ? -1 - RN(R, 1000) : (1 + RN(R, 3)) * MS + RN(R, 3) * 300000 * p_tscale;
            if (ns > 0 && p_tscale > 1) {       // on the grid of the logged time
                ns += RN(R, 100000) * p_tscale;
                ns += p_tscale - (vt_now() - T0 + ns) % p_tscale;
            }
            bool ever = RN(R, 8) == 0 && c != 1 && k->cen && !k->inh;
            if (ever) ns = RN(R, 2) ? INT64_MAX : INT64_MAX - (int64_t)RN(R, 1000000);
            ev_call(c, "sleep", 0, 0, 0, ever ? -1 : ns < 0 ? 0 : lt(vt_now() + ns), 0);
            r = neco_sleep(ns);
        } else {
            dl = pickdl(c, &d);
            ev_call(c, "sleep", 0, 0, 0, d, 0);
            r = neco_sleep_dl(dl);
        }
        ev_ret(c, r, 0, 0);
        break; }
    case O_JOIN: {
        int64_t id = picktarget(c, &x, false);
        dl = pickdl(c, &d);
        ev_call(c, "join", x, 0, 0, d, 0);
        r = d == -1 ? neco_join(id) : neco_join_dl(id, dl);
        ev_ret(c, r, 0, 0);
        break; }
    case O_SUSPEND:
        dl = pickdl(c, &d);
        ev_call(c, "suspend", 0, 0, 0, d, 0);
        r = d == -1 ? neco_suspend() : neco_suspend_dl(dl);
        ev_ret(c, r, 0, 0);
        break;
    case O_RESUME: {
        int64_t id = picktarget(c, &x, true);
        ev_call(c, "resume", x, 0, 0, -1, 0);
        r = neco_resume(id);
        ev_ret(c, r, 0, 0);
        break; }
    case O_CANCEL: {
        int64_t id = picktarget(c, &x, false);
        dl = pickdl(c, &d);
        if (x == c) { dl = INT64_MAX; d = -1; }
        if (x == c && !k->cen) break;
        ev_call(c, "cancel", x, 0, 0, d, 0);
        r = d == -1 ? neco_cancel(id) : neco_cancel_dl(id, dl);
        ev_ret(c, r, 0, 0);
        break; }
    case O_SEND: case O_BCAST: case O_GYIELD: {
        char b[BUFSZ];
        x = op == O_GYIELD ? k->gen : 1 + RN(R, p_nhot ? p_nhot : nch);
        long v = mkmsg(x ? x : 1, b);
        dl = pickdl(c, &d);
        if (op == O_BCAST) {
            ev_call(c, "bcast", x, 0, v, -1, 0);
            r = neco_chan_broadcast(ch[x], b);
            ev_ret(c, r > 0 ? 0 : r, r > 0 ? r : 0, 0);
        } else if (op == O_SEND) {
            ev_call(c, "send", x, 0, v, d, 0);
            k->nuse = 1; k->use[0] = x;
            r = d == -1 ? neco_chan_send(ch[x], b) : neco_chan_send_dl(ch[x], b, dl);
            k->nuse = 0;
            memset(b, 0x77, BUFSZ);
            ev_ret(c, r, 0, 0);
        } else {
            ev_call(c, "gyield", x, 0, v, d, 0);
            r = d == -1 ? neco_gen_yield(b) : neco_gen_yield_dl(b, dl);
            memset(b, 0x77, BUFSZ);
            ev_ret(c, r, 0, 0);
        }
        break; }
    case O_RECV: case O_TRYRECV: case O_GNEXT: {
        RBUF(b);
        if (op == O_GNEXT) {
            if (gensused == 0) break;
            x = nch + 1 + RN(R, gensused);
            if (k->gen == x || !ch[x]) break;
        } else {
            x = 1 + RN(R, p_nhot ? p_nhot : nch);
        }
        dl = pickdl(c, &d);
        if (op == O_TRYRECV) d = -1;
        ev_call(c, opname[op], x, 0, 0, d, 0);
        k->nuse = 1; k->use[0] = x;
        if (op == O_TRYRECV) r = neco_chan_tryrecv(ch[x], b);
        else if (op == O_RECV) r = d == -1 ? neco_chan_recv(ch[x], b) : neco_chan_recv_dl(ch[x], b, dl);
        else r = d == -1 ? neco_gen_next((neco_gen*)ch[x], b) : neco_gen_next_dl((neco_gen*)ch[x], b, dl);
        k->nuse = 0;
        ev_ret(c, r, 0, rdmsg(x, b, r == NECO_OK));
        break; }
    case O_CLOSE:
        x = 1 + RN(R, p_nhot ? p_nhot : nch);
        ev_call(c, "close", x, 0, 0, -1, 0);
        r = neco_chan_close(ch[x]);
        ev_ret(c, r, 0, 0);
        break;
    case O_GCLOSE:
        if (gensused == 0) break;
        x = nch + 1 + RN(R, gensused);
        if (!ch[x]) break;
        ev_call(c, "close", x, 0, 0, -1, 0);
        r = neco_gen_close((neco_gen*)ch[x]);
        ev_ret(c, r, 0, 0);
        break;
    case O_SELECT: case O_TRYSELECT: {
        RBUF(b);
        int n = 1 + RN(R, nch);
        if (RN(R, 10) == 0 || (p_maxsel && RN(R, 2))) n = 8 + RN(R, 4);
        neco_chan *cs[16];
        int xs[16];
        char xb[64];
        int p = 0;
        int off = RN(R, nch);
        xb[0] = 0;
        for (int i = 0; i < n; i++) {
            xs[i] = 1 + (off + i) % nch;
            if (RN(R, 4) == 0) xs[i] = 1 + RN(R, nch);
            cs[i] = ch[xs[i]];
            p += snprintf(xb + p, sizeof(xb) - (size_t)p, i ? ",%d" : "%d", xs[i]);
        }
        dl = pickdl(c, &d);
        if (op == O_TRYSELECT) d = -1;
        ev_call(c, opname[op], 0, 0, 0, d, xb);
        k->nuse = n;
        memcpy(k->use, xs, sizeof(xs));
        if (op == O_TRYSELECT) {
            if (n == 1 && RN(R, 2)) r = neco_chan_tryselect(1, cs[0]);
            else if (n == 2 && RN(R, 2)) r = neco_chan_tryselect(2, cs[0], cs[1]);
            else r = neco_chan_tryselectv(n, cs);
        } else if (d == -1) {
            if (n == 2 && RN(R, 2)) r = neco_chan_select(2, cs[0], cs[1]);
            else if (n == 3 && RN(R, 2)) r = neco_chan_select(3, cs[0], cs[1], cs[2]);
            else r = neco_chan_selectv(n, cs);
        } else {
            if (n == 2 && RN(R, 2)) r = neco_chan_select_dl(dl, 2, cs[0], cs[1]);
            else r = neco_chan_selectv_dl(n, cs, dl);
        }
        int idx = 0;
        long v = 0;
        if (r >= 0) {
            idx = r;
            int le = neco_lasterr();
            if (idx >= n) { r = -97; }
            else if (le != NECO_OK) { r = -96; }
            else {
                r = neco_chan_case(cs[idx], b);
                v = rdmsg(xs[idx], b, r == NECO_OK);
            }
        }
        k->nuse = 0;
        ev_ret(c, r, idx, v);
        break; }
    case O_LOCK: case O_RDLOCK: case O_TRYLOCK: case O_TRYRDLOCK:
        m = 1 + RN(R, NMU);
        if (RN(R, 2)) m = 1;
        if ((op == O_LOCK || op == O_RDLOCK) && (wholder[m] == c || rholder[m][c])) {
            // would deadlock with itself: only with a deadline
            do { dl = pickdl(c, &d); } while (d == -1);
        } else {
            dl = pickdl(c, &d);
        }
        if (op == O_TRYLOCK || op == O_TRYRDLOCK) d = -1;
        ev_call(c, opname[op], m, 0, 0, d, 0);
        if (op == O_LOCK) r = d == -1 ? neco_mutex_lock(&mu[m]) : neco_mutex_lock_dl(&mu[m], dl);
        else if (op == O_RDLOCK) r = d == -1 ? neco_mutex_rdlock(&mu[m]) : neco_mutex_rdlock_dl(&mu[m], dl);
        else if (op == O_TRYLOCK) r = neco_mutex_trylock(&mu[m]);
        else r = neco_mutex_tryrdlock(&mu[m]);
        if (r == NECO_OK) {
            if (op == O_LOCK || op == O_TRYLOCK) wholder[m] = c;
            else rholder[m][c]++;
        }
        ev_ret(c, r, 0, 0);
        break;
    case O_UNLOCK:
        for (m = NMU; m >= 1; m--) if (wholder[m] == c || rholder[m][c]) break;
        if (m < 1) break;
        if (wholder[m] == c) wholder[m] = 0; else rholder[m][c]--;
        ev_call(c, "unlock", m, 0, 0, -1, 0);
        r = neco_mutex_unlock(&mu[m]);
        ev_ret(c, r, 0, 0);
        break;
    case O_MDESTROY: {
        // objects that other threads see must not be reset: only when somebody holds it
        if (!weight[O_PERM] && RN(R, 2)) m = 1 + RN(R, NMU);
        else for (m = NMU; m >= 1; m--) {
            if (wholder[m]) break;
            int n = 0;
            for (int i = 1; i <= NCO; i++) n += rholder[m][i];
            if (n) break;
        }
        for (int i = 1; i <= NCO; i++) if (co[i].cwm == m) m = 0;       // it will be locked again
        if (m < 1) break;
        ev_call(c, "mdestroy", m, 0, 0, -1, 0);
        r = neco_mutex_destroy(&mu[m]);
        ev_ret(c, r, 0, 0);
        break; }
    case O_CWAIT:
        if (c == 1) break;    // the reaper must not wait for a mutex of a dead coroutine
        for (m = 1; m <= NMU; m++) if (wholder[m] == c) break;
        if (m > NMU) {
            do_op(c, O_LOCK);
            break;
        }
        x = 1 + RN(R, NCV);
        dl = pickdl(c, &d);
        wholder[m] = 0;
        k->cwm = m;
        ev_call(c, "cwait", x, m, 0, d, 0);
        ncvwait[x]++;
        r = d == -1 ? neco_cond_wait(&cv[x], &mu[m]) : neco_cond_wait_dl(&cv[x], &mu[m], dl);
        ncvwait[x]--;
        wholder[m] = c;
        k->cwm = 0;
        ev_ret(c, r, 0, 0);
        break;
    case O_CSIG: case O_CBC:
        x = 1 + RN(R, NCV);
        ev_call(c, opname[op], x, 0, 0, -1, 0);
        r = op == O_CSIG ? neco_cond_signal(&cv[x]) : neco_cond_broadcast(&cv[x]);
        ev_ret(c, r, 0, 0);
        break;
    case O_WGADD: {
        x = 1 + RN(R, NWG);
        int v = RN(R, 3) == 0 ? -1 - RN(R, 3) : 1 + RN(R, 2);
        if (RN(R, 8) == 0) v = 0;
        else if (RN(R, 20) == 0) { static const int far[] = { INT_MIN, INT_MIN + 1, -65536, -256 }; v = far[RN(R, 4)]; }
        ev_call(c, "wgadd", x, 0, v, -1, 0);
        r = neco_waitgroup_add(&wg[x], v);
        ev_ret(c, r, 0, 0);
        break; }
    case O_WGDONE:
        x = 1 + RN(R, NWG);
        ev_call(c, "wgdone", x, 0, 0, -1, 0);
        r = neco_waitgroup_done(&wg[x]);
        ev_ret(c, r, 0, 0);
        break;
    case O_WGWAIT:
        x = 1 + RN(R, NWG);
        dl = pickdl(c, &d);
        ev_call(c, "wgwait", x, 0, 0, d, 0);
        nwgwait[x]++;                   // stays if the wait never returns
        r = d == -1 ? neco_waitgroup_wait(&wg[x]) : neco_waitgroup_wait_dl(&wg[x], dl);
        nwgwait[x]--;
        ev_ret(c, r, 0, 0);
        break;
    case O_RENEW:
        // destroy or init of an object that nobody waits for
        if (weight[O_PERM]) break;
        if (RN(R, 2)) {
            x = 1 + RN(R, NWG);
            if (nwgwait[x]) break;
            ev_call(c, "wgrenew", x, 0, 0, -1, 0);
            r = RN(R, 2) ? neco_waitgroup_destroy(&wg[x]) : neco_waitgroup_init(&wg[x]);
        } else {
            x = 1 + RN(R, NCV);
            if (ncvwait[x]) break;
            ev_call(c, "cvrenew", x, 0, 0, -1, 0);
            r = RN(R, 2) ? neco_cond_destroy(&cv[x]) : neco_cond_init(&cv[x]);
        }
        ev_ret(c, r, 0, 0);
        break;
    case O_SETCS: case O_SETCT: {
        int old = 0;
        if (op == O_SETCS) {
            bool nv = RN(R, 3) ? true : false;
            if (c == 1) nv = true;
            r = neco_setcancelstate(nv ? NECO_CANCEL_ENABLE : NECO_CANCEL_DISABLE, &old);
            k->cen = nv;
            log_ev("{\"e\":\"setcs\",\"c\":%d,\"v\":%s,\"w\":%s,\"t\":%ld}", c, nv ? "true" : "false",
                old == NECO_CANCEL_ENABLE ? "true" : "false", tnow());
        } else {
            bool nv = RN(R, 2);
            r = neco_setcanceltype(nv ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, &old);
            k->asy = nv;
            log_ev("{\"e\":\"setct\",\"c\":%d,\"v\":%s,\"w\":%s,\"t\":%ld}", c, nv ? "true" : "false",
                old == NECO_CANCEL_ASYNC ? "true" : "false", tnow());
        }
        break; }
    case O_PUSH:
        if (k->nh >= MAXH || k->inh) break;
        k->hid[k->nh] = ++hcount;
        log_ev("{\"e\":\"push\",\"c\":%d,\"h\":%d,\"t\":%ld}", c, hcount, tnow());
        k->nh++;
        __neco_c0(k->hbuf[k->nh - 1], handler, (void*)(intptr_t)((hcount << 8) | c));
        break;
    case O_POP:
        if (k->nh == 0 || k->inh) break;
        popone(c);
        break;
    case O_EXIT:
        if (c == 1) break;
        ev_call(c, "exit", 0, 0, 0, -1, 0);
        neco_exit();
        ev_ret(c, 0, 0, 0);
        break;
    case O_STATS: {
        neco_stats st;
        r = neco_getstats(&st);
        if (r != NECO_OK) { log_ev("{\"e\":\"statsfail\",\"c\":%d}", c); break; }
        log_ev("{\"e\":\"stats\",\"c\":%d,\"st\":{\"coroutines\":%zu,\"sleepers\":%zu,\"evwaiters\":%zu,"
            "\"sigwaiters\":%zu,\"senders\":%zu,\"receivers\":%zu,\"locked\":%zu,\"waitgroupers\":%zu,"
            "\"condwaiters\":%zu,\"suspended\":%zu},\"t\":%ld}", c, st.coroutines, st.sleepers,
            st.evwaiters, st.sigwaiters, st.senders, st.receivers, st.locked, st.waitgroupers,
            st.condwaiters, st.suspended, tnow());
        break; }
    case O_IDS: {
        ev_call(c, "ids", 0, 0, 0, -1, 0);
        int64_t li = neco_lastid(), si = neco_starterid();
        bool ok = neco_getid() == k->id;
        ev_ret(c, ok ? 0 : -95, slotof(li), slotof(si));
        break; }
    case O_SPIN:
        vt_advance((300000 + RN(R, 8) * 400000) * p_tscale);
        break;
    case O_BAD: {
        int i = RN(R, NBAD);
        ev_call(c, "bad", 0, 0, i, -1, 0);
        r = badcall(i);
        ev_ret(c, r, 0, 0);
        break; }
    case O_WATCH: case O_UNWATCH: {
        int g = 1 + RN(R, NSIGS);
        if (c == 1) break;
        if (op == O_WATCH) { neco_signal_watch(sigs[g]); k->sw |= 1u << g; }
        else { neco_signal_unwatch(sigs[g]); k->sw &= ~(1u << g); }
        log_ev("{\"e\":\"%s\",\"c\":%d,\"g\":%d,\"t\":%ld}", opname[op], c, g, tnow());
        break; }
    case O_RAISE: {
        int g = 1 + RN(R, NSIGS);
        log_ev("{\"e\":\"raise\",\"c\":%d,\"g\":%d,\"t\":%ld}", c, g, tnow());
        raise(sigs[g]);
        break; }
    case O_SIGWAIT:
        dl = pickdl(c, &d);
        ev_call(c, "sigwait", 0, 0, 0, d, 0);
        r = d == -1 ? neco_signal_wait() : neco_signal_wait_dl(dl);
        { int g = 0;
          if (r > 0) {
              for (g = 1; g <= NSIGS; g++) if (sigs[g] == r) break;
              r = 0;
          }
          ev_ret(c, r, 0, g); }
        break;
    case O_REF: case O_UNREF:
        x = 1 + RN(R, nch);
        if (RN(R, 12) == 0) {
            ev_call(c, "ref", x, 0, 0, -1, 0);
            ev_ret(c, chanburst(R), 0, 0);
            break;
        }
        if (op == O_REF ? refs[x] > 5 : refs[x] == 0) break;
        ev_call(c, "ref", x, 0, 0, -1, 0);
        r = op == O_REF ? neco_chan_retain(ch[x]) : neco_chan_release(ch[x]);
        refs[x] += op == O_REF ? 1 : -1;
        ev_ret(c, r, 0, 0);
        break;
    case O_REMAKE: {
        // replace a channel that nobody is using by a new one
        x = 1 + RN(R, nch);
        bool inuse = false;
        for (int i = 1; i <= NCO; i++) {
            for (int j = 0; co[i].alive && j < co[i].nuse; j++) inuse |= co[i].use[j] == x;
        }
        neco_chan *old = ch[x], *nw;
        bool first = RN(R, 2);
        int sz = chsize[x], cap = RN(R, p_capmax + 1);
        if (inuse) break;
        if (first) for (; refs[x] >= 0; refs[x]--) neco_chan_release(old);
        for (int i = 0; ; i++) {
            r = neco_chan_make(&nw, (size_t)sz, (size_t)cap);
            if (r == NECO_OK || !p_mem || r != NECO_NOMEM || i > 100) break;
        }
        if (!first) for (; refs[x] >= 0; refs[x]--) neco_chan_release(old);
        refs[x] = 0;
        ch[x] = nw;
        chcap[x] = cap;
        bool alias = false;
        for (int i = 1; i <= nch + gensused; i++) alias |= i != x && ch[i] == nw;
        log_ev("{\"e\":\"remake\",\"c\":%d,\"x\":%d,\"cap\":%d,\"r\":\"%s\",\"t\":%ld}", c, x, cap,
            alias ? "ALIAS" : en(r), tnow());
        break; }
    case O_PERM: {
        // use an object of another runtime: of this thread's previous one, or of another thread
        struct perm_objs o = { .chan = oldch, .mu = &oldmu, .cv = &oldcv, .wg = &oldwg, .st = oldst };
        int th = RN(R, p_threads);
        if (th != me) { o = pub[th]; }
        if (!o.chan) break;
        o.ownchan = ch[1];
        for (m = 1; m <= NMU; m++) if (wholder[m] == c) break;
        o.ownmu = m <= NMU ? &mu[m] : NULL;
        o.owncv = &cv[1];
        x = perm_foreign(RN(R, PERM_NFOREIGN));
        long rr = perm_call(x, &o);
        int le = neco_lasterr();
        log_ev("{\"e\":\"perm\",\"c\":%d,\"k\":%d,\"r\":\"%s\",\"le\":\"%s\",\"t\":%ld}", c, x, en(rr), en(le), tnow());
        break; }
    case O_WORK: {
        struct wk w = { .c = c, .us = RN(R, 3) ? RN(R, 200) : 0 };
        x = RN(R, NPIN + 1);
        w.pin = x;
        ev_call(c, "work", x, 0, 0, -1, 0);
        r = neco_work(x == 0 ? -1 : pinno[x], workfn, &w);
        ev_ret(c, r, 0, 0);
        break; }
    }
}

static ssize_t io_read(int c, int x, int max, int64_t dl, long d) {
    struct cos *k = &co[c];
    unsigned char *b = malloc((size_t)max + 16);
    memset(b, 0, (size_t)max + 16);
    ev_call(c, "read", x, max, 0, d, 0);
    k->usex = x; k->usedir = 1; ruse[x]++;
    ssize_t n = d == -1 ? neco_read(rfd[x], b, (size_t)max) : neco_read_dl(rfd[x], b, (size_t)max, dl);
    k->usedir = 0; ruse[x]--;
    bool over = false;
    for (int i = n < 0 ? 0 : (int)n; i < max + 16; i++) over |= b[i] != 0;
    if (over) ev_ioret(c, "OVERRUN", n, "");
    else if (n > 0) ev_ioret(c, "OK", n, runs(b, n));
    else if (n == 0) ev_ioret(c, max ? "EOF" : "OK", 0, "");
    else if (n != -1) ev_ioret(c, "BADRET", n, "");
    else ev_ioret(c, errno == ETIMEDOUT ? "TIMEDOUT" : errno == ECANCELED ? "CANCELED" :
        errno == EPIPE || errno == ECONNRESET ? "ERROR" : "BADERRNO", 0, "");
    free(b);
    return n;
}
static void io_op(int c, int op) {
    struct cos *k = &co[c];
    uint64_t *R = &k->rng;
    long d = -1;
    int64_t dl;
    int x = 1 + RN(R, p_nhot && p_nhot < NST ? p_nhot : NST);
    bool big = RN(R, 100) < p_bigio;
    if (op == O_WRITE && c > 8) op = O_FDWAIT;      // the bytes name their writer by three bits
    switch (op) {
    case O_READ:
        if (rcl[x] && x <= 2) break;
        dl = pickdl(c, &d);
        io_read(c, x, RN(R, 50) == 0 ? 0 : big ? 1 + RN(R, 12000) : 1 + RN(R, 24), dl, d);
        break;
    case O_WRITE: {
        if (wcl[x] && x <= 2) break;
        dl = pickdl(c, &d);
        int n = RN(R, 50) == 0 ? 0 : big ? 2000 + RN(R, 16000) : 1 + RN(R, 24);
        unsigned char *b = malloc((size_t)n + 1);
        for (int i = 0; i < n; i++) b[i] = (unsigned char)(((c & 7) << 5) | ((wbase[x][c] + i) & 31));
        ev_call(c, "write", x, n, 0, d, 0);
        k->usex = x; k->usedir = 2; wuse[x]++;
        ssize_t w = d == -1 ? neco_write(wfd[x], b, (size_t)n) : neco_write_dl(wfd[x], b, (size_t)n, dl);
        int e = errno;
        k->usedir = 0; wuse[x]--;
        free(b);
        if (w > 0) wbase[x][c] += w;
        if (w == n) ev_ioret(c, "OK", w, "");
        else if (w > 0 && w < n) ev_ioret(c, "PART", w, "");
        else if (w != -1) ev_ioret(c, "BADRET", w, "");
        else ev_ioret(c, e == ETIMEDOUT ? "TIMEDOUT" : e == ECANCELED ? "CANCELED" :
            e == EPIPE || e == ECONNRESET ? "ERROR" : "BADERRNO", 0, "");
        break; }
    case O_FDWAIT: {
        int dir = 1 + RN(R, 2);
        if (x <= 2 && (dir == 1 ? rcl[x] : wcl[x])) break;
        dl = pickdl(c, &d);
        ev_call(c, "fdwait", x, dir, p_evfault ? 1 : 0, d, 0);
        long evf = nevfault;
        k->usex = x; k->usedir = dir;
        if (dir == 1) ruse[x]++; else wuse[x]++;
        int fd = dir == 1 ? rfd[x] : wfd[x], mode = dir == 1 ? NECO_WAIT_READ : NECO_WAIT_WRITE;
        int r = d == -1 ? neco_wait(fd, mode) : neco_wait_dl(fd, mode, dl);
        k->usedir = 0;
        if (dir == 1) ruse[x]--; else wuse[x]--;
        int sys = errno;
        ev_ioret(c, r == NECO_ERROR && evf != nevfault && (sys == EMFILE || sys == ENOSPC || sys == EEXIST) ? "EVERR" : en(r), 0, "");
        if (r == 0 && dir == 1 && RN(R, 2)) {
            unsigned char b[64];
            ssize_t n = __real_read(rfd[x], b, (size_t)(1 + RN(R, 64)));
            if (n > 0) {
                const char *rs = runs(b, n);
                log_ev("{\"e\":\"rawread\",\"c\":%d,\"x\":%d,\"runs\":[%s],\"t\":%ld}", c, x, rs, tnow());
            }
        }
        break; }
    case O_FDCLOSEW:
        if (x <= 2 && wuse[x]) break;
        io_closew(x);
        break;
    case O_FDCLOSER:
        if (x <= 2 && ruse[x]) break;
        io_closer(x);
        break;
    }
}

static int totw;
static int pickop(uint64_t *R) {
    int r = RN(R, totw);
    for (int i = 0; i < NOPS; i++) {
        if (r < weight[i]) return i;
        r -= weight[i];
    }
    return O_YIELD;
}

static void interp(int c, int nops) {
    struct cos *k = &co[c];
    for (int i = 0; i < nops && !stop; i++) {
        int op = pickop(&k->rng);
        if (k->gen && RN(&k->rng, 2)) op = O_GYIELD;
        do_op(c, op);
        if (k->gen && nops < 30 && RN(&k->rng, 8) == 0) nops++;
    }
    if (!stop && RN(&k->rng, 3)) release_some(c);
}

static void co_boot(int argc, void *argv[]) {
    (void)argc; (void)argv;
    struct cos *k = &co[1];
    memset(k, 0, sizeof(*k));
    k->used = true; k->alive = true;
    k->rng = prng ^ 77;
    k->id = neco_getid();
    bool ok = takeid(k->id, 1);
    int ct = 0, cs = 0;
    neco_setcanceltype(NECO_CANCEL_INLINE, &ct);
    neco_setcanceltype(ct, 0);
    neco_setcancelstate(NECO_CANCEL_DISABLE, &cs);
    neco_setcancelstate(cs, 0);
    k->asy = ct == NECO_CANCEL_ASYNC;
    k->cen = cs == NECO_CANCEL_ENABLE;
    if (p_mem) mem_started();
    for (int i = 1; i <= nch; i++) {
        int r;
        for (int j = 0; j < 100; j++) {
            r = neco_chan_make(&ch[i], (size_t)chsize[i], (size_t)chcap[i]);
            if (r != NECO_NOMEM || !p_mem) break;
        }
        if (r != NECO_OK) ok = false;
    }
    log_ev("{\"e\":\"begin\",\"c\":1,\"p\":%d,\"li\":%d,\"ct\":%s,\"cs\":%s,\"ok\":%s,\"t\":%ld}",
        slotof(neco_starterid()), slotof(neco_lastid()), k->asy ? "true" : "false",
        k->cen ? "true" : "false", ok ? "true" : "false", tnow());
    __neco_c0(k->outer, outer_handler, (void*)(intptr_t)1);
    neco_stream *mystream = NULL;
    if (weight[O_PERM]) {
        for (int i = 1; i <= NMU; i++) neco_mutex_init(&mu[i]);
        for (int i = 1; i <= NCV; i++) neco_cond_init(&cv[i]);
        for (int i = 1; i <= NWG; i++) neco_waitgroup_init(&wg[i]);
        neco_stream_make_buffered(&mystream, open("/dev/null", O_RDWR));
        pub[me] = (struct perm_objs){ .chan = ch[1], .mu = &mu[1], .cv = &cv[1], .wg = &wg[1], .st = mystream };
        pubid[me] = k->id;
        if (p_threads > 1) pthread_barrier_wait(&bar);
    }
    if (profsig) {
        for (int g = 1; g <= NSIGS; g++) {
            neco_signal_watch(sigs[g]);
            log_ev("{\"e\":\"watch\",\"c\":1,\"g\":%d,\"t\":%ld}", g, tnow());
        }
    }
    int n0 = p_allinit ? p_initial : 2 + RN(&k->rng, p_initial);
    for (int i = 0; i < n0; i++) do_op(1, weight[O_GSTART] && RN(&k->rng, 3) == 0 ? O_GSTART : O_START);
    int64_t horizon = T0 + p_horizon * MS;
    for (int i = 0; i < 400 && vt_now() < horizon; i++) {
        int op = RN(&k->rng, 3) ? pickop(&k->rng) : RN(&k->rng, 2) ? O_SLEEP : O_YIELD;
        do_op(1, op);
        int alive = 0;
        for (int s = 2; s <= NCO; s++) alive += co[s].alive;
        if (!alive && nstarts >= p_maxstart) break;
        if (!alive && RN(&k->rng, 4) == 0) break;
    }
    stop = true;
    for (int it = 0; ; it++) {
        int alive = 0;
        for (int s = 2; s <= NCO; s++) alive += co[s].alive;
        for (int m = 1; m <= NMU; m++) {
            for (int s = 1; s <= NCO; s++) {
                if (s > 1 && co[s].alive) continue;
                while (wholder[m] == s || rholder[m][s]) {
                    if (wholder[m] == s) wholder[m] = 0; else rholder[m][s]--;
                    ev_call(1, "unlock", m, 0, 0, -1, 0);
                    int r = neco_mutex_unlock(&mu[m]);
                    ev_ret(1, r, 0, 0);
                }
            }
        }
        if (!alive) break;
        if (it > 100) {
            stuck();
        }
        for (int s = 2; s <= NCO; s++) {
            if (!co[s].alive) continue;
            int64_t dl = T0 + ((vt_now() - T0) / MS + 2) * MS;
            ev_call(1, "cancel", s, 0, 0, lt(dl), 0);
            int r = neco_cancel_dl(co[s].id, dl);
            ev_ret(1, r, 0, 0);
        }
        ev_call(1, "sleep", 0, 0, 0, lt(vt_now() + MS), 0);
        int r = neco_sleep(MS);
        ev_ret(1, r, 0, 0);
    }
    if (profsig) {
        // consume the signals that are left
        for (int i = 0; i < 1000; i++) {
            int64_t dl = T0 + ((vt_now() - T0) / MS + 2) * MS;
            ev_call(1, "sigwait", 0, 0, 0, lt(dl), 0);
            int r = neco_signal_wait_dl(dl);
            int g = 0;
            int r0 = r;
            if (r > 0) {
                for (g = 1; g <= NSIGS; g++) if (sigs[g] == r) break;
                r = 0;
            }
            ev_ret(1, r, 0, g);
            if (r0 <= 0) break;
        }
    }
    if (profio) {
        // everything that was written must come out, then end of file
        for (int x = 1; x <= NST; x++) {
            if (rcl[x]) continue;
            io_closew(x);
            for (int i = 0; i < 100; i++) {
                int64_t dl = T0 + ((vt_now() - T0) / MS + 400) * MS;
                if (io_read(1, x, 30000, dl, lt(dl)) <= 0) break;
            }
        }
    }
    do_op(1, O_STATS);
    while (k->nh > 0) popone(1);
    if (weight[O_PERM]) {
        if (p_threads > 1) pthread_barrier_wait(&bar);
        neco_stream_close(mystream);
        // leave objects of this runtime for the next
        neco_mutex_init(&oldmu); neco_cond_init(&oldcv); neco_waitgroup_init(&oldwg);
        if (neco_chan_make(&oldch, 4, 1) || neco_stream_make_buffered(&oldst, 0)) oldch = NULL;
    }
    for (int i = 1; i <= nch + gensused; i++) {
        for (; refs[i] >= 0 && ch[i]; refs[i]--) neco_chan_release(ch[i]);
    }
    __neco_c1(0);
    log_ev("{\"e\":\"end\",\"c\":1,\"t\":%ld}", tnow());
    k->alive = false;
}

static void set_env(uint64_t R) {
    denv_asy = RN(&R, 100) < p_async;
    denv_cen = !(RN(&R, 100) < p_disabled);
    neco_env_setcanceltype(denv_asy ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE);
    neco_env_setcancelstate(denv_cen ? NECO_CANCEL_ENABLE : NECO_CANCEL_DISABLE);
}

static void run_program(uint64_t seed) {
    prng = seed;
    memset(co, 0, sizeof(co));
    memset(ch, 0, sizeof(ch));
    memset(refs, 0, sizeof(refs));
    memset(mu, 0, sizeof(mu));
    memset(cv, 0, sizeof(cv));
    memset(wg, 0, sizeof(wg));
    memset(nwgwait, 0, sizeof(nwgwait));
    memset(ncvwait, 0, sizeof(ncvwait));
    memset(wholder, 0, sizeof(wholder));
    memset(rholder, 0, sizeof(rholder));
    nthids = 0;
    nstarts = gensused = hcount = msgcount = 0;
    oldslotid_n = 0;
    stop = false;
    T0 = vt_now() + 5000000;
    vt_advance(5000000);
    uint64_t R = seed ^ UINT64_C(0xabcdef);
    nch = p_nch; ngen = p_ngen;
    for (int x = 1; x <= NPIN; x++) {
        static const int64_t base[] = { 0, 0, 64, 1000, INT64_C(1) << 31, INT64_C(1) << 32, INT64_C(1) << 40, INT64_MAX - 63 };
        pinno[x] = base[RN(&prng, 8)] + x - 1;
    }
    static const int sizes[] = { 4, 8, 0, 1, 2, 4, 24, 64, 65, 100, 600, 4 };
    char caps[128];
    int p = 0;
    for (int i = 1; i <= nch + ngen; i++) {
        chsize[i] = sizes[RN(&R, 12)];
        chcap[i] = i <= nch ? RN(&R, p_capmax + 1) : 0;
        // a ring of more than 2 GiB (most of it is never touched)
        if (p_bigcap && i <= nch && chsize[i] >= 24 && RN(&R, 100) < p_bigcap) chcap[i] = INT_MAX / chsize[i] + 1 + RN(&R, 9);
        p += snprintf(caps + p, sizeof(caps) - (size_t)p, i > 1 ? ",%d" : "%d", chcap[i]);
    }
    if (p_threads == 1) set_env(R);
    if (weight[O_PERM]) outside("outside", 4, &R);
    if (p_mem) mem_begin(memfailat, p_memfail, seed);
    if (profio) io_open();
    log_ev("{\"e\":\"reset\",\"seed\":\"%llu\",\"caps\":[%s],\"nco\":%d,\"nst\":%d,\"wfifo\":%s,\"mem\":%s,\"asy\":%s,\"cen\":%s,\"t\":0}",
        (unsigned long long)seed, caps, NCO, profio ? NST : 0, p_wfifo ? "true" : "false", p_mem ? "true" : "false", denv_asy ? "true" : "false", denv_cen ? "true" : "false");
    int r = neco_start(co_boot, 0);
    if (r != NECO_OK) log_ev("{\"e\":\"startfail\",\"r\":\"%s\",\"le\":\"%s\",\"t\":%ld}", en(r), en(neco_lasterr()), tnow());
    if (profio) io_close();
    struct mem_counts mc = { 0 };
    if (p_mem) mem_counts(&mc);
    memallocs = mc.allocs;
    memstartup = mc.startup;
    log_ev("{\"e\":\"done\",\"left\":[%ld,%ld,%ld,%ld],\"t\":%ld}", mc.blocks, mc.bad, mc.maps, mc.fds, tnow());
}

#ifdef THREADED
static long tnprog;
static uint64_t tseed;
static const char *tout;
static void *thmain(void *a) {
    me = (int)(intptr_t)a;
    char path[4096];
    snprintf(path, sizeof(path), "%s.%d", tout, me);
    vt_thread(INT64_C(1000000000000), path);
    for (long i = 0; i < tnprog; i++) run_program(tseed * UINT64_C(1000003) + (uint64_t)(i * 8 + me));
    log_close();
    return NULL;
}
#endif

int main(int argc, char *argv[]) {
    const char *out = NULL;
    uint64_t seed = 1;
    long nprog = 10, flush = 0, rep = 1;
    weight[O_YIELD] = 3;
    for (int i = 1; i < argc; i++) {
        char *eq = strchr(argv[i], '=');
        if (!eq) { fprintf(stderr, "bad arg %s\n", argv[i]); return 9; }
        *eq = 0;
        char *k = argv[i], *v = eq + 1;
        int done = 1;
        if (!strcmp(k, "out")) out = v;
        else if (!strcmp(k, "seed")) seed = strtoull(v, 0, 10);
        else if (!strcmp(k, "n")) nprog = atol(v);
        else if (!strcmp(k, "maxev")) maxev = atol(v);
        else if (!strcmp(k, "flush")) flush = atol(v);
        else if (!strcmp(k, "rep")) rep = atol(v);
        else if (!strcmp(k, "nch")) p_nch = atoi(v);
        else if (!strcmp(k, "ngen")) p_ngen = atoi(v);
        else if (!strcmp(k, "maxops")) p_maxops = atoi(v);
        else if (!strcmp(k, "maxstart")) p_maxstart = atoi(v);
        else if (!strcmp(k, "horizon")) p_horizon = atoi(v);
        else if (!strcmp(k, "nco")) { NCO = atoi(v); if (NCO < 2 || NCO > MAXCO) return 9; }
        else if (!strcmp(k, "tscale")) p_tscale = vt_scale = atoi(v);
        else if (!strcmp(k, "dlinf")) p_dlinf = atoi(v);
        else if (!strcmp(k, "dlpast")) p_dlpast = atoi(v);
        else if (!strcmp(k, "async")) p_async = atoi(v);
        else if (!strcmp(k, "disabled")) p_disabled = atoi(v);
        else if (!strcmp(k, "capmax")) p_capmax = atoi(v);
        else if (!strcmp(k, "nhot")) p_nhot = atoi(v);
        else if (!strcmp(k, "evfault")) p_evfault = atoi(v);
        else if (!strcmp(k, "iofault")) p_iofault = atoi(v);
        else if (!strcmp(k, "bigcap")) p_bigcap = atoi(v);
        else if (!strcmp(k, "wtmo")) p_wtmo = atoi(v);
        else if (!strcmp(k, "pcfail")) p_pcfail = atoi(v);
        else if (!strcmp(k, "wfifo")) p_wfifo = atoi(v);
        else if (!strcmp(k, "threads")) p_threads = atoi(v);
        else if (!strcmp(k, "mem")) p_mem = atoi(v);
        else if (!strcmp(k, "memenum")) p_memenum = atoi(v);
        else if (!strcmp(k, "memfail")) p_memfail = atoi(v);
        else if (!strcmp(k, "maxsel")) p_maxsel = atoi(v);
        else if (!strcmp(k, "bigio")) p_bigio = atoi(v);
        else if (!strcmp(k, "initial")) p_initial = atoi(v);
        else if (!strcmp(k, "allinit")) p_allinit = atoi(v);
        else done = 0;
        for (int o = 0; !done && o < NOPS; o++) {
            if (!strcmp(k, opname[o])) { weight[o] = atoi(v); done = 1; }
        }
        if (!done) { fprintf(stderr, "unknown option %s\n", k); return 9; }
    }
    if (!out) return 9;
    for (int i = 0; i < NOPS; i++) totw += weight[i];
    profsig = weight[O_SIGWAIT] > 0 || weight[O_RAISE] > 0;
    profwork = weight[O_WORK] > 0;
    profio = weight[O_READ] + weight[O_WRITE] + weight[O_FDWAIT] > 0;
    if (profio && p_maxstart > NCO - 1) p_maxstart = NCO - 1;
    idslot = calloc(1, MAXID);
    log_open(out);
    if (p_mem) mem_install();
    vt_enable(INT64_C(1000000000000));
    vt_idle = on_idle;
    vt_spin = on_spin;
    vt_accel = !profwork && !profio;
#ifdef THREADED
    if (p_threads > MAXTH || profwork || profio || profsig) return 9;
    pthread_barrier_init(&bar, NULL, (unsigned)p_threads);
    tnprog = nprog; tseed = seed; tout = out;
    set_env(seed);
    pthread_t th[MAXTH];
    for (long i = 0; i < p_threads; i++) pthread_create(&th[i], 0, thmain, (void*)i);
    for (long i = 0; i < p_threads; i++) pthread_join(th[i], 0);
    nprog = 0;
#else
    if (p_threads != 1) return 9;
#endif
    for (long i = 0; i < nprog; i++) {
        if (maxev && log_count > maxev) break;
        for (long j = 0; j < rep; j++) run_program(seed * UINT64_C(1000003) + (uint64_t)i);
        if (p_memenum) {
            // the same program with each of its allocations failing
            long n = memallocs, n0 = memstartup, step = (n - n0) / p_memenum + 1;
            memfailat = 1 + i * 7 % n0;
            run_program(seed * UINT64_C(1000003) + (uint64_t)i);
            for (memfailat = n0 + 1 + (long)(i % step); memfailat <= n; memfailat += step) {
                run_program(seed * UINT64_C(1000003) + (uint64_t)i);
            }
            memfailat = 0;
        }
        if (flush) log_flush();
    }
    log_close();
    return 0;
}
