// Trace driver for the scale of things: hundreds of coroutines on one object,
// channels with tens of thousands of messages or large ones, large counters.
// Each event is an operation done many times, with what came of it and the
// statistics afterwards. Validated against spec/NecoBulk.tla by TraceBulk.tla.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <limits.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <pthread.h>
#include <sys/syscall.h>
#include "neco.h"
#include "vt.h"

int __real_nanosleep(const struct timespec *, struct timespec *);
#define MS INT64_C(1000000)
static uint64_t G;
static long maxev;
static int p_n = 1000;
static char kinds[128] = "chan,rw,wg,cond,join,susp,cancel,sleep,fd,start,clean,sig,gen,select,work";
#define MAXW 4000
struct w { int64_t id; int grp, r; long msg; bool used, done, seen, good, live; };
static struct w *W;
static int nw, live;
static int64_t T0;

static const char *en(long r) {
    switch (r) {
    case 0: return "OK";
    case NECO_ERROR: return "ERROR";
    case NECO_INVAL: return "INVAL";
    case NECO_PERM: return "PERM";
    case NECO_NOTFOUND: return "NOTFOUND";
    case NECO_CLOSED: return "CLOSED";
    case NECO_EMPTY: return "EMPTY";
    case NECO_TIMEDOUT: return "TIMEDOUT";
    case NECO_CANCELED: return "CANCELED";
    case NECO_BUSY: return "BUSY";
    case NECO_NEGWAITGRP: return "NEGWAITGRP";
    case NECO_NOTSUSPENDED: return "NOTSUSPENDED";
    }
    return r > 0 ? "POS" : "OTHER";
}
// a coroutine of the crowd
static int newco(int grp, void (*f)(int, void **), long arg) {
    int i = nw++;
    W[i] = (struct w){ .grp = grp, .used = true, .good = true, .msg = -1 };
    live++;
    if (neco_start(f, 2, (void*)(long)i, (void*)arg) != NECO_OK) { W[i].good = false; W[i].done = true; W[i].r = NECO_NOMEM; live--; }
    return i;
}
static void gone(void *a) { (void)a; live--; }
#define ENTER int i = (int)(long)argv[0]; long arg = (long)argv[1]; (void)arg; (void)argc; struct w *w = &W[i]; w->id = neco_getid(); w->live = true; neco_setcanceltype(NECO_CANCEL_INLINE, 0)
#define LEAVE do { w->live = false; live--; } while (0)
static void finish(struct w *w, int r) { w->r = r; w->done = true; }

static int obs_one(char *b, int grp) {
    int ok = 0, cl = 0, can = 0, tmo = 0, nf = 0, oth = 0, first = -1;
    long msg = -1;
    bool seq = true, same = true;
    for (int i = 0; i < nw; i++) {
        struct w *w = &W[i];
        if (!w->used || w->grp != grp || !w->done || w->seen) continue;
        w->seen = true;
        if (!w->good) { oth++; continue; }
        switch (w->r) {
        case 0:
            if (first < 0) { first = i; msg = w->msg; }
            if (w->msg != msg) same = false;
            if (w->msg != msg + ok) seq = false;
            ok++;
            break;
        case NECO_CLOSED: cl++; break;
        case NECO_CANCELED: can++; break;
        case NECO_TIMEDOUT: tmo++; break;
        case NECO_NOTFOUND: nf++; break;
        default: oth++;
        }
    }
    return sprintf(b, "{\"ok\":%d,\"cl\":%d,\"can\":%d,\"tmo\":%d,\"nf\":%d,\"oth\":%d,\"first\":%d,\"msg\":%ld,\"seq\":%s,\"same\":%s}",
        ok, cl, can, tmo, nf, oth, first, msg, seq ? "true" : "false", same ? "true" : "false");
}
static void settle(void) { for (int i = 0; i < 2; i++) neco_sleep(1 * MS); }
// an operation done n times with parameter a: result r, k times, x: a value
static void ev(const char *op, long n, long a, const char *r, long k, long x, bool good) {
    char o[300], p[300];
    neco_stats s = { 0 };
    neco_getstats(&s);
    obs_one(o, 0); obs_one(p, 1);
    log_ev("{\"e\":\"%s\",\"n\":%ld,\"a\":%ld,\"r\":\"%s\",\"k\":%ld,\"x\":%ld,\"good\":%s,\"o\":%s,\"p\":%s,"
        "\"st\":[%zu,%zu,%zu,%zu,%zu,%zu,%zu,%zu,%zu,%zu],\"t\":%ld}", op, n, a, r, k, x, good ? "true" : "false", o, p,
        s.coroutines, s.sleepers, s.evwaiters, s.sigwaiters, s.senders, s.receivers, s.locked, s.waitgroupers, s.condwaiters, s.suspended,
        (long)((vt_now() - T0) / 1000));
}
static int many(void) {
    switch (RN(&G, 8)) {
    case 0: return 1; case 1: return 2 + RN(&G, 4); case 2: return 60 + RN(&G, 80); case 3: return 250 + RN(&G, 20);
    case 4: return 130 + RN(&G, 130); case 5: return 300; default: return 1 + RN(&G, 30);
    }
}
// the live coroutines of a group that still wait, from the last on
static int cancel_last(int grp, int n) {
    int k = 0;
    for (int i = nw - 1; i >= 0 && k < n; i--)
        if (W[i].grp == grp && W[i].live && !W[i].done) { k++; if (neco_cancel(W[i].id) != NECO_OK) W[i].good = false; }
    return k;
}
static int waiting(int grp) {
    int k = 0;
    for (int i = 0; i < nw; i++) k += W[i].used && W[i].grp == grp && W[i].live && !W[i].done;
    return k;
}
static void cancel_op(const char *name, int grp) {
    int w = waiting(grp);
    if (!w) return;
    int n = RN(&G, 3) ? 1 + RN(&G, w) : w;
    if (RN(&G, 2) && n > 5) n = 1 + RN(&G, 5);
    n = cancel_last(grp, n);
    settle();
    ev(name, n, 0, "OK", n, 0, true);
}

// ------------------------------------------------------------------ channels
static neco_chan *ch, *idle[3];
static int sz; static long cap, nextmsg, bcmsg;
static void fill(unsigned char *b, long m) {
    for (int i = 0; i < sz; i++) b[i] = (unsigned char)(m * 131 + i * 7 + (i >> 8) * 13);
    memcpy(b, &(int){ (int)m }, 4);
}
static long take(unsigned char *b, bool *good) {     // the number of a message
    static unsigned char *x; static int xs;
    if (xs < sz) { x = realloc(x, (size_t)sz); xs = sz; }
    int m; memcpy(&m, b, 4);
    fill(x, m);
    if (memcmp(b, x, (size_t)sz) || b[sz] != 0xa5 || b[sz + 1] != 0x5a) *good = false;
    return m;
}
static unsigned char *newbuf(void) { unsigned char *b = malloc((size_t)sz + 8); memset(b, 0xee, (size_t)sz); b[sz] = 0xa5; b[sz + 1] = 0x5a; return b; }
static void co_send(int argc, void **argv) {
    ENTER;
    unsigned char *b = newbuf();
    fill(b, arg);
    int r = neco_chan_send(ch, b);
    w->msg = arg;
    finish(w, r);
    free(b);
    LEAVE;
}
static void co_recv(int argc, void **argv) {
    ENTER;
    unsigned char *b = newbuf();
    int r;
    if (arg == 0) r = neco_chan_recv(ch, b);
    else {
        neco_chan *c[4] = { idle[0], idle[1], idle[2], idle[0] };
        int at = (int)(arg - 1) % 3;
        c[at] = ch;
        r = arg > 3 ? neco_chan_selectv(3, c) : neco_chan_select(3, c[0], c[1], c[2]);
        if (r >= 0) { if (r != at) w->good = false; r = neco_chan_case(ch, b); }
    }
    if (r == NECO_OK) w->msg = take(b, &w->good);
    finish(w, r);
    free(b);
    LEAVE;
}
static void s_chan(void) {
    static const int sizes[] = { 4, 8, 63, 64, 65, 100, 255, 256, 257, 4096, 32768, 65535, 65536, 65540, 70000 };
    static const long caps[] = { 0, 0, 1, 2, 10, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 70000 };
    do { sz = sizes[RN(&G, RN(&G, 2) ? 15 : 6)]; cap = caps[RN(&G, RN(&G, 2) ? 16 : 9)]; } while ((cap + 1) * sz > 4 << 20);
    neco_chan_make(&ch, (size_t)sz, (size_t)cap);
    for (int i = 0; i < 3; i++) neco_chan_make(&idle[i], 8, 0);
    nextmsg = 0; bcmsg = 1000000000;
    log_ev("{\"e\":\"reset\",\"kind\":\"chan\",\"a\":%ld,\"b\":%d}", cap, sz);
    unsigned char *b = newbuf();
    long q = 0;                     // messages under way
    int sw0;
    for (int step = 0; step < 14; step++) {
        int op = RN(&G, 12);
        long n = many();
        if (RN(&G, 3) == 0 && cap > 0) n = cap - 2 + RN(&G, 5);
        if (n < 1) n = 1;
        bool good = true;
        if (op < 3) {
            int r = 0; long k = 0;
            for (; k < n; k++) { fill(b, nextmsg); r = neco_chan_send_dl(ch, b, neco_now() + 1 * MS); if (r) break; nextmsg++; }
            settle();
            ev("send", n, 0, en(r), k, 0, true);
        } else if (op < 4) {
            if (n > 300) n = 300;
            if (nw + n > MAXW) continue;
            int from = nw;
            for (long k = 0; k < n; k++) newco(1, co_send, nextmsg++);
            settle();
            for (int i = from; i < nw; i++) if (W[i].done && W[i].r != NECO_OK) { nextmsg = nextmsg - (nw - i); break; }
            ev("bsend", n, from, "OK", 0, 0, true);
        } else if (op < 7) {
            int r = 0; long k = 0, first = -1;
            for (; k < n; k++) {
                memset(b, 0xee, (size_t)sz);
                r = RN(&G, 2) ? neco_chan_tryrecv(ch, b) : neco_chan_tryselect(1, ch);
                if (r == NECO_OK && b[0] == 0xee && b[1] == 0xee && b[2] == 0xee && b[3] == 0xee) r = neco_chan_case(ch, b);
                if (r) break;
                long m = take(b, &good);
                if (k == 0) first = m;
                if (m != first + k) good = false;
            }
            settle();
            ev("recv", n, 0, en(r), k, first, good);
        } else if (op < 9) {
            if (n > 300) n = 300;
            if (nw + n > MAXW) continue;
            int from = nw;
            for (long k = 0; k < n; k++) newco(0, co_recv, RN(&G, 2) ? 0 : 1 + RN(&G, 6));
            settle();
            ev("brecv", n, from, "OK", 0, 0, true);
        } else if (op < 10) {
            fill(b, ++bcmsg);
            int r = neco_chan_broadcast(ch, b);
            settle();
            ev("bcast", 1, bcmsg, r >= 0 ? "OK" : en(r), r, 0, true);
        } else if (op < 11) {
            if (RN(&G, 2)) cancel_op("rcancel", 0);
            else {
                sw0 = waiting(1);
                cancel_op("scancel", 1);
                nextmsg -= sw0 - waiting(1);
            }
        } else if (step > 5 && RN(&G, 2)) {
            int r = neco_chan_close(ch);
            settle();
            ev("close", 1, 0, en(r), 0, 0, true);
        }
    }
    (void)q;
    int k = cancel_last(0, MAXW), k2 = cancel_last(1, MAXW);
    settle();
    ev("end", k, k2, "OK", 0, 0, true);
    neco_chan_release(ch);
    for (int i = 0; i < 3; i++) neco_chan_release(idle[i]);
    free(b);
}
// --------------------------------------------------------------------- locks
static neco_mutex mu;
static void co_lock(int argc, void **argv) {
    ENTER;
    int r = arg ? neco_mutex_lock(&mu) : neco_mutex_rdlock(&mu);
    w->msg = i;
    finish(w, r);
    if (r == NECO_OK) {
        if (neco_suspend() != NECO_OK) w->good = false;
        neco_mutex_unlock(&mu);
    }
    LEAVE;
}
static int release(int n) {
    int k = 0;
    for (int i = 0; i < nw && k < n; i++)
        if (W[i].live && W[i].done && W[i].r == NECO_OK && W[i].seen) { k++; W[i].live = false; neco_resume(W[i].id); }
    return k;
}
static int holders(void) { int k = 0; for (int i = 0; i < nw; i++) k += W[i].live && W[i].done && W[i].r == NECO_OK; return k; }
static void s_rw(void) {
    memset(&mu, 0, sizeof(mu));
    neco_mutex_init(&mu);
    log_ev("{\"e\":\"reset\",\"kind\":\"rw\",\"a\":0,\"b\":0}");
    for (int step = 0; step < 16; step++) {
        int op = RN(&G, 10), n = many();
        if (op < 4) {
            if (nw + n > MAXW) continue;
            int from = nw;
            for (int k = 0; k < n; k++) newco(0, co_lock, 0);
            settle();
            ev("rd", n, from, "OK", 0, 0, true);
        } else if (op < 5) {
            n = 1 + RN(&G, RN(&G, 4) ? 3 : 270);
            if (nw + n > MAXW) continue;
            int from = nw;
            for (int k = 0; k < n; k++) newco(0, co_lock, 1);
            settle();
            ev("wr", n, from, "OK", 0, 0, true);
        } else if (op < 8) {
            int h = holders();
            if (!h) continue;
            n = RN(&G, 2) ? h : 1 + RN(&G, h);
            n = release(n);
            settle();
            ev("rel", n, 0, "OK", 0, 0, true);
        } else if (op < 9) {
            int r = neco_mutex_trylock(&mu);
            if (r == NECO_OK) neco_mutex_unlock(&mu);
            int q = neco_mutex_tryrdlock(&mu);
            if (q == NECO_OK) neco_mutex_unlock(&mu);
            int z = neco_mutex_lock_dl(&mu, neco_now() + 1 * MS);
            if (z == NECO_OK) neco_mutex_unlock(&mu);
            settle();
            ev("try", 0, 0, en(r), q == NECO_OK ? 0 : q == NECO_BUSY ? 1 : 2, z == NECO_OK ? 0 : z == NECO_TIMEDOUT ? 1 : 2, true);
        } else cancel_op("cancel", 0);
    }
    int k = cancel_last(0, MAXW);
    settle();
    ev("end", k, 0, "OK", 0, 0, true);
    while (holders()) { release(MAXW); settle(); }
    ev("free", 0, 0, en(neco_mutex_trylock(&mu)), 0, 0, true);
}
// ---------------------------------------------------------------- waitgroups
static neco_waitgroup wg;
static void co_wg(int argc, void **argv) { ENTER; w->msg = 0; finish(w, neco_waitgroup_wait(&wg)); LEAVE; }
static void s_wg(void) {
    memset(&wg, 0, sizeof(wg));
    neco_waitgroup_init(&wg);
    log_ev("{\"e\":\"reset\",\"kind\":\"wg\",\"a\":0,\"b\":0}");
    long c = 0;
    for (int step = 0; step < 16; step++) {
        int op = RN(&G, 10), n = many();
        if (op < 4) {
            static const long far[] = { 1, 2, 255, 256, 257, 32767, 65535, 65536, 100000, 16777216, 1000000000 };
            long v = far[RN(&G, 11)];
            if (RN(&G, 3) == 0 || c > 1000000000) v = RN(&G, 3) == 0 ? -c : -v;
            if (RN(&G, 10) == 0) v = INT_MIN;
            int r = neco_waitgroup_add(&wg, (int)v);
            if (r == NECO_OK) c += v;
            settle();
            ev("add", 1, v, en(r), 0, 0, true);
        } else if (op < 6) {
            int r = 0, k = 0;
            for (; k < n; k++) { r = neco_waitgroup_done(&wg); if (r) break; c--; }
            settle();
            ev("dones", n, 0, en(r), k, 0, true);
        } else if (op < 9) {
            if (nw + n > MAXW) continue;
            int from = nw;
            for (int k = 0; k < n; k++) newco(0, co_wg, 0);
            settle();
            ev("wait", n, from, "OK", 0, 0, true);
        } else cancel_op("cancel", 0);
    }
    int k = cancel_last(0, MAXW);
    settle();
    ev("end", k, 0, "OK", 0, 0, true);
}
// ---------------------------------------------------------------- conditions
static neco_cond cv; static long wakes;
static void co_cond(int argc, void **argv) {
    ENTER;
    neco_mutex_lock(&mu);
    int r = neco_cond_wait(&cv, &mu);
    w->msg = r == NECO_OK ? wakes++ : 0;
    neco_mutex_unlock(&mu);
    finish(w, r);
    LEAVE;
}
static void s_cond(void) {
    memset(&mu, 0, sizeof(mu)); memset(&cv, 0, sizeof(cv));
    neco_mutex_init(&mu); neco_cond_init(&cv);
    wakes = 0;
    log_ev("{\"e\":\"reset\",\"kind\":\"cond\",\"a\":0,\"b\":0}");
    for (int step = 0; step < 14; step++) {
        int op = RN(&G, 10), n = many();
        if (op < 5) {
            if (nw + n > MAXW) continue;
            int from = nw;
            for (int k = 0; k < n; k++) newco(0, co_cond, 0);
            settle();
            ev("wait", n, from, "OK", 0, 0, true);
        } else if (op < 7) {
            int r = 0;
            bool held = RN(&G, 2);          // with the lock: nobody returns before it is given back
            if (held) neco_mutex_lock(&mu);
            for (int k = 0; k < n && !r; k++) r = neco_cond_signal(&cv);
            if (held) neco_mutex_unlock(&mu);
            settle();
            ev("signal", n, 0, en(r), 0, 0, true);
        } else if (op < 9) {
            bool held = RN(&G, 2);
            if (held) neco_mutex_lock(&mu);
            int r = neco_cond_broadcast(&cv);
            if (held) neco_mutex_unlock(&mu);
            settle();
            ev("bcast", 1, 0, en(r), 0, 0, true);
        } else cancel_op("cancel", 0);
    }
    int k = cancel_last(0, MAXW);
    settle();
    ev("end", k, 0, "OK", 0, 0, true);
}
// ---------------------------------------------------------------------- join
static int64_t target; static int tcmd; static bool tdone;
static void co_target(int argc, void **argv) {
    ENTER;
    neco_setcancelstate(NECO_CANCEL_DISABLE, 0);
    while (tcmd != 1) {
        if (tcmd == 2) neco_setcancelstate(NECO_CANCEL_ENABLE, 0);
        if (tcmd == 3) neco_setcancelstate(NECO_CANCEL_DISABLE, 0);
        tcmd = 0;
        neco_suspend();
    }
    tdone = true;
    LEAVE;
}
static void command(int c) { tcmd = c; neco_resume(target); settle(); }
static void mktarget(void) { tcmd = 0; tdone = false; W[newco(2, co_target, 0)].done = true; target = W[nw - 1].id; W[nw - 1].seen = true; }
static void co_join(int argc, void **argv) {
    ENTER;
    int r = arg ? neco_join_dl(target, neco_now() + 1 * MS) : neco_join(target);
    w->msg = tdone;
    finish(w, r);
    LEAVE;
}
static void s_join(void) {
    log_ev("{\"e\":\"reset\",\"kind\":\"join\",\"a\":0,\"b\":0}");
    mktarget();
    bool over = false;
    for (int step = 0; step < 8; step++) {
        int op = RN(&G, 10), n = many();
        if (op < 5) {
            if (nw + n > MAXW) continue;
            for (int k = 0; k < n; k++) newco(0, co_join, 0);
            settle();
            ev("join", n, 0, "OK", 0, 0, true);
        } else if (op < 7) {
            if (nw + n > MAXW) continue;
            for (int k = 0; k < n; k++) newco(0, co_join, 1);
            settle(); settle();
            ev("tjoin", n, 0, "OK", 0, 0, true);
        } else if (op < 8 && !over && step > 3) {
            command(1);
            over = true;
            ev("finish", 1, 0, "OK", 0, 0, true);
        } else cancel_op("cancel", 0);
    }
    if (!over) { command(1); ev("finish", 1, 0, "OK", 0, 0, true); }
    ev("end", 0, 0, "OK", 0, 0, true);
}
// -------------------------------------------------------------------- cancel
static void co_cancel(int argc, void **argv) { ENTER; w->msg = 0; finish(w, neco_cancel(target)); LEAVE; }
static void s_cancel(void) {
    log_ev("{\"e\":\"reset\",\"kind\":\"cancel\",\"a\":0,\"b\":0}");
    mktarget();
    bool over = false;
    for (int step = 0; step < 9; step++) {
        int op = RN(&G, 10), n = many();
        if (op < 4) {
            if (nw + n > MAXW) continue;
            for (int k = 0; k < n; k++) newco(0, co_cancel, 0);
            settle();
            ev("cancel", n, 0, "OK", 0, 0, true);
        } else if (op < 6 && !over) { command(2); ev("enable", 1, 0, "OK", 0, 0, true);
        } else if (op < 7 && !over) { command(3); ev("disable", 1, 0, "OK", 0, 0, true);
        } else if (op < 8 && !over && step > 4) { command(1); over = true; ev("finish", 1, 0, "OK", 0, 0, true);
        } else cancel_op("ccancel", 0);
    }
    if (!over) { command(1); ev("finish", 1, 0, "OK", 0, 0, true); }
    ev("end", 0, 0, "OK", 0, 0, true);
}
// ------------------------------------------------------------------- suspend
static void co_susp(int argc, void **argv) { ENTER; w->msg = i; finish(w, neco_suspend()); LEAVE; }
static void s_susp(void) {
    log_ev("{\"e\":\"reset\",\"kind\":\"susp\",\"a\":0,\"b\":0}");
    for (int step = 0; step < 10; step++) {
        int op = RN(&G, 10), n = many();
        if (op < 5) {
            if (nw + n > MAXW) continue;
            int from = nw;
            for (int k = 0; k < n; k++) newco(0, co_susp, 0);
            settle();
            ev("suspend", n, from, "OK", 0, 0, true);
        } else if (op < 8) {
            int k = 0, bad = 0, first = -1;
            for (int i = 0; i < nw && k < n; i++) if (W[i].live && !W[i].done) {
                if (first < 0) first = i;
                k++; bad += neco_resume(W[i].id) != NECO_OK;
            }
            int nf = 0;
            for (int i = 0; i < nw && i < 300; i++) if (W[i].done && !W[i].live) nf += neco_resume(W[i].id) != NECO_NOTFOUND;
            settle();
            ev("resume", k, 0, bad + nf ? "OTHER" : "OK", k, first, true);
        } else cancel_op("cancel", 0);
    }
    int k = cancel_last(0, MAXW);
    settle();
    ev("end", k, 0, "OK", 0, 0, true);
}
// --------------------------------------------------------------------- sleep
static void co_sleep(int argc, void **argv) {
    ENTER;
    int64_t dl = T0 + arg * 1000;
    int r = RN(&G, 2) ? neco_sleep_dl(dl) : neco_sleep(dl - neco_now());
    w->msg = 0;
    if (r == NECO_OK && neco_now() < dl) w->good = false;
    finish(w, r);
    LEAVE;
}
static void s_sleep(void) {
    log_ev("{\"e\":\"reset\",\"kind\":\"sleep\",\"a\":0,\"b\":0}");
    for (int step = 0; step < 16; step++) {
        int op = RN(&G, 10), n = many();
        if (op < 6) {
            if (nw + n > MAXW) continue;
            // due in the middle of a millisecond
            long due = ((vt_now() - T0) / MS + 4 + RN(&G, 60)) * 1000 + 500;
            for (int k = 0; k < n; k++) newco(0, co_sleep, due);
            ev("sleep", n, due, "OK", 0, 0, true);
        } else {
            int64_t t = T0 + ((vt_now() - T0) / MS + 1 + RN(&G, 30)) * MS;
            neco_sleep_dl(t);
            ev("tick", 1, 0, "OK", 0, 0, true);
        }
    }
    int k = cancel_last(0, MAXW);
    neco_yield(); neco_yield();
    ev("end", k, 0, "OK", 0, 0, true);
}
// --------------------------------------------------------------- descriptors
#define NP 120
static int pr[NP], pw[NP]; static bool hasbyte[NP];
static void co_fd(int argc, void **argv) {
    ENTER;
    char c = 0;
    int r;
    if (RN(&G, 2)) r = neco_wait(pr[arg], NECO_WAIT_READ);
    else { ssize_t n = neco_read(pr[arg], &c, 1); r = n == 1 ? NECO_OK : neco_lasterr(); if (n == 1) { hasbyte[arg] = false; if (c != 'a' + arg % 20) w->good = false; } }
    w->msg = arg;
    if (r == NECO_OK && hasbyte[arg]) {
        if (read(pr[arg], &c, 1) != 1) w->good = false;          // not ready at all
        hasbyte[arg] = false;
    }
    finish(w, r);
    LEAVE;
}
static void fdlist(char *b) {
    int n = 0;
    *b = 0;
    for (int i = 0; i < nw; i++) if (W[i].used && W[i].done && !W[i].seen && W[i].r == NECO_OK) b += sprintf(b, "%s%ld", n++ ? "," : "", W[i].msg);
}
static void s_fd(void) {
    for (int i = 0; i < NP; i++) { int p[2]; if (pipe2(p, O_NONBLOCK)) exit(9); pr[i] = p[0]; pw[i] = p[1]; hasbyte[i] = false; }
    log_ev("{\"e\":\"reset\",\"kind\":\"fd\",\"a\":%d,\"b\":0}", NP);
    bool busy[NP] = { 0 };
    for (int step = 0; step < 14; step++) {
        int a = RN(&G, NP), b = a + 1 + RN(&G, NP - a), n = 0;
        if (RN(&G, 2)) { a = 0; b = NP; }
        for (int i = 0; i < NP; i++) busy[i] = false;
        for (int i = 0; i < nw; i++) if (W[i].live && !W[i].done) busy[W[i].msg] = true;
        char l[2000];
        int op = RN(&G, 8);
        if (op < 4) {
            if (nw + NP > MAXW) break;
            for (int i = a; i < b; i++) if (!busy[i]) { n++; int from = nw; newco(0, co_fd, i); W[from].msg = i; }
            settle();
            fdlist(l);
            log_ev("{\"e\":\"woke\",\"l\":[%s]}", l);
            ev("fdwait", a, b, "OK", n, 0, true);
        } else if (op < 7) {
            for (int i = a; i < b; i++) if (!hasbyte[i]) { n++; hasbyte[i] = true; if (write(pw[i], &(char){ (char)('a' + i % 20) }, 1) != 1) exit(9); }
            settle();
            fdlist(l);
            log_ev("{\"e\":\"woke\",\"l\":[%s]}", l);
            ev("ready", a, b, "OK", n, 0, true);
        } else {
            for (int i = 0; i < nw; i++) if (W[i].live && !W[i].done && W[i].msg >= a && W[i].msg < b) { n++; neco_cancel(W[i].id); }
            settle();
            log_ev("{\"e\":\"woke\",\"l\":[]}");
            ev("fdcancel", a, b, "OK", n, 0, true);
        }
    }
    int k = cancel_last(0, MAXW);
    settle();
    log_ev("{\"e\":\"woke\",\"l\":[]}");
    ev("end", k, 0, "OK", 0, 0, true);
    for (int i = 0; i < NP; i++) { close(pr[i]); close(pw[i]); }
}
// --------------------------------------------------------------------- start
static int targc; static void *targv[3000]; static int64_t self;
static int64_t lastnew;
static void co_args(int argc, void **argv) {
    int i = nw - 1;
    struct w *w = &W[i];
    w->id = neco_getid(); w->live = true;
    if (argc != targc) w->good = false;
    for (int k = 0; k < argc && k < targc; k++) if (argv[k] != targv[k]) w->good = false;
    if (neco_starterid() != self || w->id <= lastnew) w->good = false;
    lastnew = w->id;
    if (neco_suspend() != NECO_OK) w->good = false;
    for (int k = 0; k < argc && k < targc && w->msg == targc; k++) if (argv[k] != targv[k]) w->good = false;
    w->msg = 0;
    finish(w, NECO_OK);
    LEAVE;
}
static void s_start(void) {
    static const int counts[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257, 1000, 3000 };
    log_ev("{\"e\":\"reset\",\"kind\":\"start\",\"a\":0,\"b\":0}");
    self = neco_getid(); lastnew = self;
    for (int step = 0; step < 14; step++) {
        int n = many();
        if (RN(&G, 2)) {
            if (nw + n > MAXW) continue;
            targc = counts[RN(&G, 22)];
            for (int k = 0; k < targc; k++) targv[k] = (void*)((uintptr_t)targc * 0x9e3779b97f4a7c15u + (uintptr_t)k * 0xc2b2ae3d27d4eb4fu);
            bool good = true;
            for (int k = 0; k < n; k++) {
                int i = nw++;
                W[i] = (struct w){ .used = true, .good = true, .msg = targc };
                live++;
                int r;
                if (targc == 3 && RN(&G, 2)) r = neco_start(co_args, 3, targv[0], targv[1], targv[2]);
                else if (targc == 9 && RN(&G, 2)) r = neco_start(co_args, 9, targv[0], targv[1], targv[2], targv[3], targv[4], targv[5], targv[6], targv[7], targv[8]);
                else r = neco_startv(co_args, targc, targv);
                if (r != NECO_OK || neco_lastid() != W[i].id) good = false;
            }
            ev("start", n, targc, "OK", 0, 0, good);
        } else {
            int k = 0;
            for (int i = 0; i < nw && k < n; i++) if (W[i].live && !W[i].done) { k++; neco_resume(W[i].id); }
            settle();
            ev("finish", k, 0, "OK", 0, 0, true);
        }
    }
    int k = 0;
    for (int i = 0; i < nw; i++) if (W[i].live && !W[i].done) { k++; neco_resume(W[i].id); }
    settle();
    ev("end", k, 0, "OK", 0, 0, true);
}
// ------------------------------------------------------------------- cleanup
static long hran, hprev, hfirst; static bool hdesc, hin;
static char hb[2000][32] __attribute__((aligned(16)));
static int64_t hid;
static void handler(void *a) {
    long h = (long)a;
    if (hran++ == 0) hfirst = h; else if (h != hprev - 1) hdesc = false;
    hprev = h;
    if (neco_getid() != hid) hin = false;
}
static void co_clean(int argc, void **argv) {
    ENTER;
    hid = w->id;
    int n = (int)(arg & 0xffff), p = (int)(arg >> 16 & 0xffff), how = (int)(arg >> 32);
    __neco_c0(hb[0], gone, 0);
    for (int k = 1; k <= n; k++) __neco_c0(hb[k], handler, (void*)(long)k);
    for (int k = 0; k < p; k++) __neco_c1(0);
    w->live = false; finish(w, NECO_OK); w->msg = 0;
    if (how == 0) { __neco_c1(1); for (int k = p; k < n; k++) __neco_c1(1); hran += 0; return; }
    if (how == 1) neco_exit();
    if (how == 2) { neco_setcanceltype(NECO_CANCEL_ASYNC, 0); neco_suspend(); }
    w->good = false;        // never here
}
static void s_clean(void) {
    log_ev("{\"e\":\"reset\",\"kind\":\"clean\",\"a\":0,\"b\":0}");
    for (int step = 0; step < 6; step++) {
        int n = many(), how = 1 + RN(&G, 2);
        if (RN(&G, 4) == 0) n *= 4;
        int p = RN(&G, 3) ? RN(&G, n + 1) : 0;
        hran = 0; hfirst = -1; hdesc = hin = true;
        newco(0, co_clean, n | (long)p << 16 | (long)how << 32);
        if (how == 2) neco_cancel(W[nw - 1].id);
        settle();
        ev("clean", n, p, how == 1 ? "exit" : "cancel", hran, hfirst, hdesc && hin);
    }
    ev("end", 0, 0, "OK", 0, 0, true);
}
// ------------------------------------------------------------------- signals
static void co_sig(int argc, void **argv) {
    ENTER;
    neco_signal_watch(SIGUSR1);
    int r = neco_signal_wait();
    w->msg = 0;
    finish(w, r == SIGUSR1 ? NECO_OK : r);
    LEAVE;
}
static void s_sig(void) {
    log_ev("{\"e\":\"reset\",\"kind\":\"sig\",\"a\":0,\"b\":0}");
    neco_signal_watch(SIGUSR1);
    for (int step = 0; step < 10; step++) {
        int op = RN(&G, 10), n = many();
        if (RN(&G, 6) == 0) n *= 5;
        if (op < 4) {
            for (int k = 0; k < n; k++) raise(SIGUSR1);
            for (int k = 0; k < 1000; k++) neco_yield();          // one delivery at a time
            settle();
            ev("raise", n, 0, "OK", 0, 0, true);
        } else if (op < 6) {
            int r = 0, k = 0;
            for (; k < n; k++) { r = neco_signal_wait_dl(neco_now() + 1 * MS); if (r != SIGUSR1) break; }
            settle();
            ev("swait", n, 0, k == n ? "OK" : en(r), k, 0, true);
        } else if (op < 9) {
            if (n > 300) n = 300;
            if (nw + n > MAXW) continue;
            for (int k = 0; k < n; k++) newco(0, co_sig, 0);
            for (int k = 0; k < 1000; k++) neco_yield();
            settle();
            ev("bwait", n, 0, "OK", 0, 0, true);
        } else cancel_op("cancel", 0);
    }
    int k = cancel_last(0, MAXW);
    settle();
    ev("end", k, 0, "OK", 0, 0, true);
    int r;
    while ((r = neco_signal_wait_dl(neco_now() + 1 * MS)) == SIGUSR1);        // none left behind for the runtime's end
    neco_signal_unwatch(SIGUSR1);
}
// ---------------------------------------------------------------- generators
static void co_gen(int argc, void **argv) {
    (void)argc;
    long n = (long)argv[0];
    unsigned char *b = newbuf();
    for (long k = 0; k < n; k++) { fill(b, k); if (neco_gen_yield(b) != NECO_OK) break; }
    free(b);
    live--;
}
static void s_gen(void) {
    static const int sizes[] = { 4, 8, 63, 64, 65, 256, 257, 4096, 65535, 65536, 70000 };
    log_ev("{\"e\":\"reset\",\"kind\":\"gen\",\"a\":0,\"b\":0}");
    for (int step = 0; step < 5; step++) {
        sz = sizes[RN(&G, 11)];
        long n = many() * (RN(&G, 4) ? 1 : 20);
        neco_gen *g;
        live++;
        int r = neco_gen_start(&g, (size_t)sz, co_gen, 1, (void*)n);
        unsigned char *b = newbuf();
        long k = 0;
        bool good = r == NECO_OK;
        for (;; k++) { r = neco_gen_next(g, b); if (r) break; if (take(b, &good) != k) good = false; }
        settle();
        ev("gen", n, sz, en(r), k, 0, good);
        neco_gen_release(g);
        free(b);
    }
    ev("end", 0, 0, "OK", 0, 0, true);
}
// -------------------------------------------------------------------- select
static neco_chan *sc[400]; static int nsc;
static void co_sel(int argc, void **argv) {
    ENTER;
    int r = neco_chan_selectv(nsc, sc), v = -1;
    if (r >= 0) {
        w->msg = r;
        int q = neco_chan_case(sc[r], &v);
        if (q == NECO_OK && v != r * 3) w->good = false;
        r = q;
    }
    finish(w, r);
    LEAVE;
}
static void s_select(void) {
    static const int counts[] = { 1, 2, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257, 300, 400 };
    nsc = counts[RN(&G, 19)];
    log_ev("{\"e\":\"reset\",\"kind\":\"select\",\"a\":%d,\"b\":0}", nsc);
    for (int i = 0; i < nsc; i++) neco_chan_make(&sc[i], sizeof(int), 1);
    for (int step = 0; step < 14; step++) {
        int op = RN(&G, 10), j = RN(&G, 3) ? RN(&G, nsc) : RN(&G, 2) ? nsc - 1 : 0, n = 1 + RN(&G, 40);
        if (op < 4) {
            int v = j * 3;
            int r = neco_chan_send_dl(sc[j], &v, neco_now() + 1 * MS);
            settle();
            ev("send", 1, j, en(r), 0, 0, true);
        } else if (op < 6) {
            int r = RN(&G, 2) ? neco_chan_tryselectv(nsc, sc) : neco_chan_selectv_dl(nsc, sc, neco_now() + 1 * MS), v = -1;
            bool good = true;
            int q = 0;
            if (r >= 0) { q = neco_chan_case(sc[r < nsc ? r : 0], &v); good = q == NECO_CLOSED || (q == NECO_OK && v == r * 3); }
            settle();
            ev("sel", 1, r, r >= 0 ? en(q) : "NONE", 0, r, good);
        } else if (op < 9) {
            if (nw + n > MAXW) continue;
            for (int k = 0; k < n; k++) newco(0, co_sel, 0);
            settle();
            char l[2000], m[2000], *b = l, *d = m;
            int c = 0, e = 0;
            *l = *m = 0;
            for (int i = 0; i < nw; i++) if (W[i].used && W[i].done && !W[i].seen) {
                if (W[i].r == NECO_OK) b += sprintf(b, "%s%ld", c++ ? "," : "", W[i].msg);
                else if (W[i].r == NECO_CLOSED) d += sprintf(d, "%s%ld", e++ ? "," : "", W[i].msg);
            }
            log_ev("{\"e\":\"selected\",\"l\":[%s],\"c\":[%s]}", l, m);
            ev("bsel", n, 0, "OK", 0, 0, true);
        } else if (step > 8) {
            int r = neco_chan_close(sc[j]);
            settle();
            ev("close", 1, j, en(r), 0, 0, true);
        } else cancel_op("cancel", 0);
    }
    int k = cancel_last(0, MAXW);
    settle();
    ev("end", k, 0, "OK", 0, 0, true);
    for (int i = 0; i < nsc; i++) neco_chan_release(sc[i]);
}
// ---------------------------------------------------------------------- work
static long wran, wnow, wmax, wlast; static bool worder, wother; static pthread_t mainth; static pthread_mutex_t wmu = PTHREAD_MUTEX_INITIALIZER;
static int64_t wpin;
static void workfn(void *u) {
    long i = (long)u;
    pthread_mutex_lock(&wmu);
    wran++;
    if (++wnow > wmax) wmax = wnow;
    if (i <= wlast) worder = false;
    wlast = i;
    if (pthread_equal(pthread_self(), mainth)) wother = false;
    pthread_mutex_unlock(&wmu);
    if (i % 7 == 0) sched_yield();
    pthread_mutex_lock(&wmu);
    wnow--;
    W[i].msg = -7;
    pthread_mutex_unlock(&wmu);
}
static void co_work(int argc, void **argv) {
    ENTER;
    int r = neco_work(wpin, workfn, (void*)(long)i);
    if (w->msg != -7) w->good = false;          // returned before it was done
    w->msg = 0;
    finish(w, r);
    LEAVE;
}
static void s_work(void) {
    log_ev("{\"e\":\"reset\",\"kind\":\"work\",\"a\":0,\"b\":0}");
    mainth = pthread_self();
    for (int step = 0; step < 3; step++) {
        static const int64_t pins[] = { -1, -1, -1, 0, 1, 63, 64, 65, 1000, INT64_C(1) << 31, INT64_C(0xffffffff), INT64_C(1) << 32, INT64_MAX };
        int n = many(), from = nw;
        if (nw + n > MAXW) continue;
        wpin = pins[RN(&G, 13)];
        wran = wnow = wmax = 0; wlast = -1; worder = wother = true;
        for (int k = 0; k < n; k++) newco(0, co_work, 0);
        if (RN(&G, 2)) for (int i = from; i < nw; i += 3) if (W[i].live && !W[i].done) neco_cancel(W[i].id);      // without effect
        for (long k = 0; live > 0 && k < 4000; k++) { neco_yield(); if (k > 50) __real_nanosleep(&(struct timespec){ .tv_nsec = 500000 }, 0); }
        ev("work", n, wpin < 0 ? 0 : 1, worder ? "ordered" : "mixed", wran, wmax, wother);
    }
    ev("end", 0, 0, "OK", 0, 0, true);
}

static const struct { const char *name; void (*f)(void); } scen[] = {
    { "chan", s_chan }, { "rw", s_rw }, { "wg", s_wg }, { "cond", s_cond }, { "join", s_join }, { "susp", s_susp },
    { "cancel", s_cancel }, { "sleep", s_sleep }, { "fd", s_fd }, { "start", s_start }, { "clean", s_clean },
    { "sig", s_sig }, { "gen", s_gen }, { "select", s_select }, { "work", s_work },
};
static int sel[32], nsel;
static void mainco(int argc, void **argv) {
    (void)argc; (void)argv;
    nw = live = 0;
    T0 = vt_now();
    memset(W, 0, sizeof(*W) * MAXW);
    scen[sel[RN(&G, nsel)]].f();
    if (live) { log_ev("{\"e\":\"stuck\",\"n\":%d}", live); log_close(); _exit(7); }
}
static void on_idle(int64_t now, int64_t until) {
    if (until - T0 > INT64_C(1000000000000)) { log_ev("{\"e\":\"stuck\",\"n\":%d}", live); log_close(); _exit(7); }
    (void)now;
}
int main(int argc, char *argv[]) {
    char *out = NULL;
    uint64_t seed = 1;
    for (int i = 1; i < argc; i++) {
        char *v = strchr(argv[i], '=');
        if (!v) return 9;
        *v++ = 0;
        if (!strcmp(argv[i], "seed")) seed = strtoull(v, 0, 10);
        else if (!strcmp(argv[i], "n")) p_n = atoi(v);
        else if (!strcmp(argv[i], "maxev")) maxev = atol(v);
        else if (!strcmp(argv[i], "kinds")) snprintf(kinds, sizeof(kinds), "%s", v);
        else if (!strcmp(argv[i], "out")) out = v;
        else if (!strcmp(argv[i], "flush")) ;
        else return 9;
    }
    if (!out) return 9;
    for (char *t = strtok(kinds, ","); t; t = strtok(NULL, ",")) {
        int k = 0;
        while (k < 15 && strcmp(scen[k].name, t)) k++;
        if (k == 15) return 9;
        sel[nsel++] = k;
    }
    W = calloc(MAXW + 400, sizeof(*W));
    if (!maxev) maxev = 1L << 40;
    G = seed * 7919 + 13;
    vt_enable(1000000000);
    vt_idle = on_idle;
    log_open(out);
    for (int k = 0; k < p_n && log_count < maxev; k++) {
        int r = neco_start(mainco, 0);
        log_ev("{\"e\":\"done\",\"r\":\"%s\"}", en(r));
        log_flush();
    }
    log_close();
    return 0;
}
