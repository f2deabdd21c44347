// Trace driver for whole processes: signals (raised by the program, sent by
// another process, or arriving at a chosen machine instruction), exit codes,
// panics. Every program runs in a child process; what it does is recorded in
// shared memory and ends with the status it ended with. The events are
// validated against spec/NecoProc.tla.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stddef.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/ptrace.h>
#include <sys/prctl.h>
#include "neco.h"
#include "vt.h"

uint64_t rng_next(uint64_t *st) {
    uint64_t z = (*st += UINT64_C(0x9e3779b97f4a7c15));
    z = (z ^ (z >> 30)) * UINT64_C(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)) * UINT64_C(0x94d049bb133111eb);
    return z ^ (z >> 31);
}
int neco_testcode(int errcode);
#define MS 1000000LL
#define NC 6
#define NG 8
static const int sigs[NG + 1] = { 0, SIGUSR1, SIGUSR2, SIGALRM, SIGHUP, SIGINT, SIGQUIT, SIGTERM, SIGPIPE };
#define G_PIPE 8
#define MAXEV 4000
struct event { const char *fmt; long a[5]; long t; };
static struct shared {
    _Atomic int crit;           // the child is recording: no signal may arrive now
    _Atomic int inj, fin;       // a signal was injected, none may come any more
    _Atomic int got;            // signals returned
    _Atomic int ready;
    _Atomic long n;
    struct event ev[MAXEV];
} *sh;
static int64_t T0;
static uint64_t prng;
static int p_mode, p_sig, p_window = 2500;
static long p_parts, p_part, p_at;      // every instruction of one program, in parts
static int64_t mono(void) {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000000000LL + ts.tv_nsec;
}
static long us(void) { return (long)((mono() - T0) / 1000); }
// The child and its tracer run the same image: an event is stored as it is,
// with few instructions, and formatted at the end (numbers and constant strings).
static inline void ev5(const char *fmt, long a, long b, long c, long d, long e) {
    sh->crit++;
    long at = sh->n;
    if (at < MAXEV) {
        sh->ev[at] = (struct event){ fmt, { a, b, c, d, e }, us() };
        sh->n = at + 1;
    }
    sh->crit--;
}
#define ev(...) EV(__VA_ARGS__, 0, 0, 0, 0, 0)
#define EV(fmt, a, b, c, d, e, ...) ev5(fmt, (long)(intptr_t)(a), (long)(intptr_t)(b), (long)(intptr_t)(c), (long)(intptr_t)(d), (long)(intptr_t)(e))
static const char *en(long r) {
    switch (r) {
    case NECO_OK: return "OK";
    case NECO_EOF: return "EOF";
    case NECO_TIMEDOUT: return "TIMEDOUT";
    case NECO_CANCELED: return "CANCELED";
    case NECO_CLOSED: return "CLOSED";
    case NECO_EMPTY: return "EMPTY";
    case NECO_NOTFOUND: return "NOTFOUND";
    case NECO_NOSIGWATCH: return "NOSIGWATCH";
    case NECO_INVAL: return "INVAL";
    case NECO_PERM: return "PERM";
    case NECO_NOMEM: return "NOMEM";
    case NECO_ERROR: return "ERROR";
    case NECO_NEGWAITGRP: return "NEGWAITGRP";
    case NECO_GAIERROR: return "GAIERROR";
    case NECO_UNREADFAIL: return "UNREADFAIL";
    case NECO_PARTIALWRITE: return "PART";
    case NECO_NOTGENERATOR: return "NOTGENERATOR";
    }
    return "OTHER";
}

// ---------------------------------------------------------------- operations
static bool watching[NC + 1][NG + 1];
static int nco, alive;
static void watch(int c, int g, bool on) {
    sh->crit++;
    int r = on ? neco_signal_watch(sigs[g]) : neco_signal_unwatch(sigs[g]);
    watching[c][g] = on;
    ev("{\"e\":\"%s\",\"c\":%d,\"g\":%d,\"r\":\"%s\"", on ? "watch" : "unwatch", c, g, en(r));
    sh->crit--;
}
static void end(int c) {
    // the watches end somewhere on the way out
    ev("{\"e\":\"cend\",\"c\":%d", c);
    alive--;
    memset(watching[c], 0, sizeof(watching[c]));
}
static int sigwait1(int c, int64_t d) {
    ev("{\"e\":\"wait\",\"c\":%d,\"d\":%ld", c, d < 0 ? -1 : us() + (long)(d / 1000));
    int r = d < 0 ? neco_signal_wait() : neco_signal_wait_dl(neco_now() + d);
    int g = 0;
    if (r > 0) for (int i = 1; i <= NG; i++) if (sigs[i] == r) g = i;
    ev("{\"e\":\"got\",\"c\":%d,\"g\":%d,\"r\":\"%s\"", c, g, r > 0 ? (g ? "OK" : "STRANGE") : en(r));
    if (r > 0) sh->got++;
    return r;
}
static neco_chan *pch;
static long pcall(int k, const char **want) {
    int x = 0;
    *want = "?";
    switch (k) {
    case 0: *want = "INVAL"; return neco_chan_send(NULL, &x);
    case 1: *want = "INVAL"; return neco_signal_watch(77);
    case 2: *want = "INVAL"; return neco_sleep(-1) == NECO_TIMEDOUT ? neco_join(-1) == NECO_OK ? neco_mutex_lock(NULL) : 0 : 0;
    case 3: *want = "PERM"; return neco_join(neco_getid());
    case 4: *want = "TIMEDOUT"; return neco_sleep_dl(1);
    case 5: *want = "EMPTY"; return neco_chan_tryrecv(pch, &x);
    case 6: *want = "NOTFOUND"; return neco_cancel(99999999);
    case 7: *want = "NOSIGWATCH"; return neco_testcode(NECO_NOSIGWATCH);
    case 8: *want = "NEGWAITGRP"; { neco_waitgroup w; neco_waitgroup_init(&w); return neco_waitgroup_done(&w); }
    case 9: *want = "NOTGENERATOR"; return neco_gen_yield(&x);
    case 10: *want = "INVAL"; return neco_testcode(NECO_INVAL);
    case 11: *want = "NOMEM"; return neco_testcode(NECO_NOMEM);
    case 12: *want = "PERM"; return neco_testcode(NECO_PERM);
    case 13: *want = "CLOSED"; return neco_testcode(NECO_CLOSED);
    case 14: *want = "PERM"; return neco_chan_release(NULL) == NECO_INVAL ? neco_testcode(NECO_PERM) : neco_testcode(NECO_PERM);
    case 15: *want = "OK"; return neco_yield();
    }
    return 0;
}
static bool panicky;
static void pc(int c, uint64_t *R) {
    int k = RN(R, 16);
    if (panicky && (k == 2 || k == 14)) k = 4;
    const char *want;
    // the wanted outcome of the call goes first: it may be the last thing that is recorded
    static const char *wants[] = { "INVAL", "INVAL", "INVAL", "PERM", "TIMEDOUT", "EMPTY", "NOTFOUND", "NOSIGWATCH", "NEGWAITGRP",
        "NOTGENERATOR", "INVAL", "NOMEM", "PERM", "CLOSED", "PERM", "OK" };
    ev("{\"e\":\"pcall\",\"c\":%d,\"k\":%d,\"want\":\"%s\",\"pe\":%s", c, k, wants[k], panicky ? "true" : "false");
    long r = pcall(k, &want);
    ev("{\"e\":\"pret\",\"c\":%d,\"r\":\"%s\",\"le\":\"%s\"", c, en(r), en(neco_lasterr()));
}
static void crash(void *u) { (void)u; *(volatile int*)8 = 1; }
static void co_main(int argc, void *argv[]) {
    (void)argc;
    int c = (int)(intptr_t)argv[0];
    uint64_t rng = prng ^ ((uint64_t)c * 7717), *R = &rng;
    int nops = 2 + RN(R, 14);
    if (c > 1) for (int i = 0; i < 2; i++) watch(c, 1 + RN(R, NG), true);
    for (int i = 0; i < nops; i++) {
        int k = RN(R, 20), g = 1 + RN(R, NG);
        if (k < 5) {
            bool w = false;
            for (int x = 1; x <= NC; x++) w |= watching[x][g];
            if (!w && g != G_PIPE && RN(R, 10)) continue;
            ev("{\"e\":\"raise\",\"c\":%d,\"g\":%d", c, g);
            raise(sigs[g]);
        } else if (k < 7) watch(c, g, true);
        else if (k < 8) watch(c, g, false);
        else if (k < 12) {
            bool any = false;
            for (g = 1; g <= NG; g++) any |= watching[c][g];
            if (any) sigwait1(c, RN(R, 3) ? 2 * MS : RN(R, 200) * 1000);
        } else if (k < 15) neco_yield();
        else if (k < 16) {
            ev("{\"e\":\"nap\",\"c\":%d", c);
            for (int j = 0; j < 10; j++) neco_sleep(50000);
            ev("{\"e\":\"napped\",\"c\":%d", c);
        } else if (k < 17 && nco < NC) {
            nco++; alive++;
            ev("{\"e\":\"start\",\"c\":%d", nco);
            neco_start(co_main, 1, (void*)(intptr_t)nco);
        } else if (k < 18 && p_mode == 1 && RN(R, 4)) pc(c, R);
        else if (k < 18) {
            // any other broken pipe is just an error
            bool w = false;
            for (int x = 1; x <= NC; x++) w |= watching[x][G_PIPE];
            int p[2];
            if (w) continue;
            if (pipe(p)) exit(99);
            close(p[0]);
            ssize_t n = neco_write(p[1], "x", 1);
            int no = errno;
            ev("{\"e\":\"wpipe\",\"c\":%d,\"r\":\"%s\",\"le\":\"%s\",\"no\":%d", c, n == -1 ? "ERROR" : "OK", en(neco_lasterr()), no);
            close(p[1]);
        }
        else if (k == 18 && RN(R, 8) == 0) {
            if (RN(R, 3) == 0) {
                static const int fs[] = { SIGFPE, SIGBUS, SIGILL, SIGTRAP };
                int f = RN(R, 7);
                ev("{\"e\":\"fault\",\"c\":%d,\"g\":%d,\"bg\":%s", c, f < 4 ? fs[f] : SIGSEGV, f == 6 ? "true" : "false");
                if (f < 4) raise(fs[f]);
                else if (f < 6) crash(NULL);
                else neco_work(-1, crash, NULL);
            } else if (RN(R, 3) == 0) {
                // a broken standard output or error ends the program
                int p[2], to = 1 + RN(R, 2);
                if (pipe(p)) exit(99);
                close(p[0]);
                dup2(p[1], to);
                ev("{\"e\":\"epipe\",\"c\":%d", c);
                neco_write(to, "x", 1);
                ev("{\"e\":\"survived\",\"c\":%d", c);
            } else if (RN(R, 2)) {
                ev("{\"e\":\"panic\",\"c\":%d", c);
                neco_panic("on purpose %d", c);
            } else {
                int code = RN(R, 200);
                ev("{\"e\":\"exitprog\",\"c\":%d,\"code\":%d", c, code);
                __neco_exit_prog(code);
            }
        } else if (k == 19 && RN(R, 10) == 0) {
            end(c);
            neco_exit();
        }
    }
    end(c);
}
static void boot(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    neco_chan_make(&pch, sizeof(int), 0);
    ev("{\"e\":\"start\",\"c\":1");
    nco = 1; alive = 1;
    neco_start(co_main, 1, (void*)(intptr_t)1);
    while (alive) neco_sleep(MS / 5);
    neco_chan_release(pch);
}

// ------------------------------------------- signals from somewhere else
static void spin(void *u) { (void)u; struct timespec ts = { 0, 50000 }; nanosleep(&ts, 0); }
static void worker(int argc, void *argv[]) {
    (void)argc; (void)argv;
    for (int i = 0; i < 40; i++) { neco_work(-1, spin, NULL); if (sh->got >= p_sig) break; }
}
static void rcv(int argc, void *argv[]) {
    (void)argc; (void)argv;
    uint64_t rng = prng ^ 99, *R = &rng;
    for (int g = 1; g < NG; g++) watch(1, g, true);
    for (int i = RN(R, 6); i > 0; i--) neco_start(worker, 0);
    sh->ready = 1;
    while (sh->got < p_sig) if (sigwait1(1, 10000 * MS) < 0) break;
    for (int g = 1; g < NG; g++) watch(1, g, false);
    end(1);
}
// ---------------------------------------------- a signal at any instruction
static void stepped(int argc, void *argv[]) {
    (void)argc; (void)argv;
    uint64_t rng = prng ^ 5, *R = &rng;
    int c = (int)(intptr_t)argv[0];
    if (c == 1) {
        for (int g = 1; g <= 3; g++) watch(c, g, true);
        while (sh->got < p_sig + sh->inj) if (sigwait1(c, 10000 * MS) < 0) break;
        for (int g = 1; g <= 3; g++) watch(c, g, false);
        sh->fin = 1;
    } else if (c == 2) {
        for (int i = 0; i < p_sig; i++) {
            int g = 1 + RN(R, 2);
            if (i == 1) raise(SIGTRAP);     // from here on step by step
            ev("{\"e\":\"raise\",\"c\":%d,\"g\":%d", c, g);
            raise(sigs[g]);
            for (int j = RN(R, 3); j > 0; j--) neco_yield();
        }
    }
    end(c);
}
static void bootstep(int argc, void *argv[]) {
    (void)argc; (void)argv;
    nco = 3;
    for (int c = 1; c <= 2; c++) {
        ev("{\"e\":\"start\",\"c\":%d", c);
        neco_start(stepped, 1, (void*)(intptr_t)c);
    }
}
static void bootrcv(int argc, void *argv[]) {
    (void)argc; (void)argv;
    ev("{\"e\":\"start\",\"c\":1");
    neco_start(rcv, 0);
}
static volatile int caught[33];
static void mine(int g) { caught[g]++; }
static void thco(int argc, void *argv[]) {
    (void)argc; (void)argv;
    int r1 = neco_signal_watch(SIGUSR1), le = neco_lasterr(), r2 = neco_signal_wait_dl(neco_now() + MS);
    bool bad = r1 != NECO_PERM || le != NECO_PERM || r2 != NECO_PERM || neco_is_main_thread();
    if (bad) *(int*)argv[0] = 1;
    while (!sh->ready || sh->got < p_sig) {
        if (neco_sleep(MS) != NECO_OK) break;
        if (mono() - T0 > 8000 * MS) break;
    }
}
static void *thmain(void *a) { neco_start(thco, 1, a); return NULL; }

static void child(uint64_t seed) {
    uint64_t rng = seed ^ 0x77, *R = &rng;
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2); dup2(fd, 1);
    struct sigaction old[33], now, act = { .sa_handler = mine };
    for (int g = 1; g <= NG; g++) if (RN(R, 2)) sigaction(sigs[g], &act, NULL);
    static char alt[65536];
    stack_t ss0, ss1, ss = { .ss_sp = alt, .ss_size = sizeof(alt) };
    if (RN(R, 2)) sigaltstack(&ss, NULL);
    sigaltstack(NULL, &ss0);
    for (int g = 1; g < 32; g++) sigaction(g, NULL, &old[g]);
    ev("{\"e\":\"main\",\"main\":%s", neco_is_main_thread() == NECO_PERM ? "true" : "false");
    panicky = p_mode == 1 && RN(R, 2);
    neco_env_setpaniconerror(panicky);
    pthread_t th;
    int thbad = 0;
    bool two = p_mode == 2 && RN(R, 3) == 0;
    if (two) pthread_create(&th, NULL, thmain, &thbad);
    int r = neco_start(p_mode == 2 ? bootrcv : p_mode == 3 ? bootstep : boot, 0);
    if (two) { sh->got = p_sig; sh->ready = 1; pthread_join(th, NULL); }
    // the signal handlers of before are back, and work
    int diff = thbad;
    for (int g = 1; g < 32; g++) {
        sigaction(g, NULL, &now);
        diff += now.sa_handler != old[g].sa_handler || ((now.sa_flags ^ old[g].sa_flags) & ~0x04000000);      // (the libc's own flag)
    }
    sigaltstack(NULL, &ss1);
    diff += ss0.ss_flags != ss1.ss_flags || (!(ss0.ss_flags & SS_DISABLE) && ss0.ss_sp != ss1.ss_sp);
    for (int g = 1; g <= NG; g++) if (old[sigs[g]].sa_handler == mine) {
        int n = caught[sigs[g]];
        raise(sigs[g]);
        diff += caught[sigs[g]] != n + 1;
    }
    int code = RN(R, 100);
    ev("{\"e\":\"return\",\"r\":\"%s\",\"diff\":%d,\"code\":%d", en(r), diff, code);
    exit(code);
}
static void program(uint64_t seed, FILE *f) {
    prng = seed;
    uint64_t rng = seed ^ 0x1234, *R = &rng;
    memset(sh, 0, offsetof(struct shared, ev));
    p_sig = p_mode == 2 ? 7 : 2;
    T0 = mono();
    ev("{\"e\":\"reset\",\"mode\":%d,\"seed\":\"%llu\"", p_mode, (unsigned long long)seed);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (p_mode == 3) ptrace(PTRACE_TRACEME, 0, 0, 0);
        child(seed);
    }
    int st = 0;
    bool gone = false, slow = false;
    if (p_mode == 2) {
        while (!sh->ready && waitpid(p, &st, WNOHANG) == 0) usleep(50);
        // every signal once: they may overtake each other but do not merge
        int at = RN(R, 7);
        for (int i = 0; i < 7; i++) {
            kill(p, sigs[1 + (at + i) % 7]);
            if (RN(R, 4) == 0) usleep((unsigned)RN(R, 200));
        }
    } else if (p_mode == 3) {
        long after = p_parts ? p_at : (long)(rng_next(R) % (unsigned)p_window), n = 0;
        bool stepping = false;
        int p_g = 0;
        while (waitpid(p, &st, 0) == p) {
            if (WIFEXITED(st) || WIFSIGNALED(st)) { gone = true; break; }
            int sig = WSTOPSIG(st);
            if (sig == SIGTRAP) {
                sig = 0;
                if (!sh->inj && !sh->fin) {
                    stepping = true;
                    uint64_t blocked = 0;
                    if (!sh->crit && n++ >= after) {
                        if (p_g == 0) p_g = 1 + RN(R, 3);
                        // a blocked signal could merge with the next one
                        ptrace(PTRACE_GETSIGMASK, p, sizeof(blocked), &blocked);
                        // at the entry of a handler the kernel would forget the signal
                        siginfo_t si = { 0 };
                        ptrace(PTRACE_GETSIGINFO, p, 0, &si);
                        if (si.si_code != TRAP_TRACE && si.si_code != TRAP_BRKPT) blocked = ~UINT64_C(0);
                    }
                    if (n > after && !sh->crit && !(blocked >> (sigs[p_g] - 1) & 1)) {
                        int g = p_g;
                        ev("{\"e\":\"raise\",\"c\":3,\"g\":%d", g);
                        sh->inj = 1;
                        sig = sigs[g];
                    }
                }
            }
            ptrace(stepping && !sh->inj && !sh->fin ? PTRACE_SINGLESTEP : PTRACE_CONT, p, 0, sig);
        }
    }
    for (int64_t t = mono(); !gone && mono() - t < 20000 * MS;) {
        pid_t w = waitpid(p, &st, WNOHANG);
        if (w == p) { gone = true; break; }
        usleep(mono() - t < 5 * MS ? 20 : 1000);
    }
    if (!gone) { slow = true; kill(p, SIGKILL); waitpid(p, &st, 0); }
    sh->crit = 0;
    ev("{\"e\":\"exit\",\"code\":%d", slow ? 999 : WIFSIGNALED(st) ? 256 + WTERMSIG(st) : WEXITSTATUS(st));
    for (long i = 0; i < sh->n; i++) {
        struct event *e = &sh->ev[i];
        fprintf(f, e->fmt, e->a[0], e->a[1], e->a[2], e->a[3], e->a[4]);
        fprintf(f, ",\"t\":%ld}\n", e->t);
    }
}
int main(int argc, char *argv[]) {
    const char *out = NULL;
    uint64_t seed = 1;
    long n = 100, maxev = 0, first = 0;
    for (int i = 1; i < argc; i++) {
        char *v = strchr(argv[i], '=');
        if (!v) return 9;
        *v++ = 0;
        if (!strcmp(argv[i], "out")) out = v;
        else if (!strcmp(argv[i], "seed")) seed = strtoull(v, 0, 10);
        else if (!strcmp(argv[i], "n")) n = atol(v);
        else if (!strcmp(argv[i], "mode")) p_mode = atoi(v);
        else if (!strcmp(argv[i], "maxev")) maxev = atol(v);
        else if (!strcmp(argv[i], "first")) first = atol(v);
        else if (!strcmp(argv[i], "part")) p_part = atol(v);
        else if (!strcmp(argv[i], "parts")) p_parts = atol(v);
        else if (!strcmp(argv[i], "window")) p_window = atoi(v);
        else if (!strcmp(argv[i], "flush")) {}
        else return 9;
    }
    if (!out) return 9;
    sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    FILE *f = fopen(out, "w");
    if (sh == MAP_FAILED || !f) return 9;
    (void)maxev;
    for (long i = first; i < first + n; i++) {
        p_at = i * p_parts + p_part;
        program(seed * UINT64_C(1000003) + (p_parts ? 0 : (uint64_t)i), f);
        fflush(f);
    }
    fclose(f);
    return 0;
}
