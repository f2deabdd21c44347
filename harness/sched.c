// Scheduling order driver. A program is a script of operations; whichever
// coroutine is running takes the next operation of the script. In exhaustive
// mode (len=N) all scripts of that length are run, otherwise random ones.
// The order of events is validated against spec/NecoSched.tla.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include "neco.h"
#include "vt.h"

#define NCO 6
enum { YIELD, START, SUSPEND, RESUME, END, JOIN, EXIT, NOPS };
static int64_t id[NCO + 1];
static int st[NCO + 1];           // 0 free, 1 alive, 2 suspended, 3 joining, 4 dead
static int par[NCO + 1];
static int script[256], nscript, pos, starting, maxco = 4;

static int alive(void) {          // coroutines that can run
    int n = 0;
    for (int c = 1; c <= NCO; c++) n += st[c] == 1;
    return n;
}
static void ev(const char *o, int c, int x, const char *r) {
    log_ev("{\"e\":\"%s\",\"c\":%d,\"x\":%d,\"r\":\"%s\"}", o, c, x, r);
}
static const char *rn(int r) {
    return r == NECO_OK ? "OK" : r == NECO_NOTSUSPENDED ? "NOTSUSPENDED" : r == NECO_NOTFOUND ? "NOTFOUND" : "OTHER";
}
static void resume(int c, int x) {
    ev("resume", c, x, "");
    bool was = st[x] == 2;
    if (was) st[x] = 1;
    int r = neco_resume(id[x]);
    ev("ret", c, 0, rn(r));
}
static void entry(int argc, void *argv[]) {
    (void)argc; (void)argv;
    int c = starting;
    id[c] = neco_getid();
    st[c] = 1;
    ev("begin", c, 0, "");
    while (pos < nscript) {
        int o = script[pos++], x = 0, r;
        switch (o) {
        case START:
            for (int k = 1; k <= maxco && !x; k++) if (st[k] == 0) x = k;
            if (!x) goto yield;
            starting = x;
            par[x] = c;
            ev("start", c, x, "");
            r = neco_start(entry, 0);
            ev("ret", c, 0, rn(r));
            break;
        case SUSPEND:
            if (alive() < 2) goto yield;
            st[c] = 2;
            ev("suspend", c, 0, "");
            r = neco_suspend();
            ev("ret", c, 0, rn(r));
            break;
        case RESUME:
            // a suspended one, or else any other
            for (int k = 1; k <= maxco && !x; k++) if (st[k] == 2) x = k;
            for (int k = 1; k <= maxco && !x; k++) if (st[k] && k != c) x = k;
            if (!x) goto yield;
            resume(c, x);
            break;
        case JOIN:
            for (int k = maxco; k >= 1 && !x; k--) if (st[k] && k != c && par[k] == c) x = k;
            if (!x || (st[x] != 4 && alive() < 2)) goto yield;
            if (st[x] != 4) st[c] = 3;
            ev("join", c, x, "");
            r = neco_join(id[x]);
            st[c] = 1;
            ev("ret", c, 0, rn(r));
            break;
        case EXIT: case END:
            if (alive() < 2) goto yield;
            goto end;
        default:
        yield:
            ev("yield", c, 0, "");
            r = neco_yield();
            ev("ret", c, 0, rn(r));
        }
    }
end:
    if (pos >= nscript || alive() < 2) {
        for (int k = 1; k <= maxco; k++) if (st[k] == 2) resume(c, k);
    }
    st[c] = 4;
    for (int k = 1; k <= maxco; k++) if (st[k] == 3 && 0) st[k] = 1;
    ev("end", c, 0, "");
    if (pos > 0 && script[pos - 1] == EXIT) neco_exit();
}

int main(int argc, char *argv[]) {
    const char *out = NULL;
    uint64_t seed = 1;
    int len = 0, ops = NOPS - 1, part = 0, parts = 1;
    long n = 100, flush = 0;
    for (int i = 1; i < argc; i++) {
        char *v = strchr(argv[i], '=');
        if (!v) return 9;
        *v++ = 0;
        if (!strcmp(argv[i], "out")) out = v;
        else if (!strcmp(argv[i], "seed")) seed = strtoull(v, 0, 10);
        else if (!strcmp(argv[i], "n")) n = atol(v);
        else if (!strcmp(argv[i], "len")) len = atoi(v);
        else if (!strcmp(argv[i], "ops")) ops = atoi(v);
        else if (!strcmp(argv[i], "maxco")) maxco = atoi(v);
        else if (!strcmp(argv[i], "part")) part = atoi(v);
        else if (!strcmp(argv[i], "parts")) parts = atoi(v);
        else if (!strcmp(argv[i], "flush")) flush = atol(v);
        else return 9;
    }
    if (!out) return 9;
    log_open(out);
    vt_enable(INT64_C(1000000000000));
    long total = 1;
    for (int i = 0; i < len; i++) total *= ops;
    if (len) n = total;
    for (long p = 0; p < n; p++) {
        if (len) {
            if (p % parts != part) continue;
            long q = p;
            nscript = len;
            for (int i = 0; i < len; i++) { script[i] = (int)(q % ops); q /= ops; }
        } else {
            uint64_t R = seed * 7919 + (uint64_t)p;
            nscript = 5 + RN(&R, 40);
            for (int i = 0; i < nscript; i++) {
                int k = RN(&R, 16);
                script[i] = k < 6 ? YIELD : k < 9 ? START : k < 11 ? SUSPEND : k < 13 ? RESUME : k < 14 ? JOIN :
                    k < 15 ? END : EXIT;
            }
        }
        memset(st, 0, sizeof(st));
        memset(par, 0, sizeof(par));
        pos = 0;
        starting = 1;
        log_ev("{\"e\":\"reset\",\"c\":1,\"x\":0,\"r\":\"\"}");
        int r = neco_start(entry, 0);
        log_ev("{\"e\":\"done\",\"c\":0,\"x\":0,\"r\":\"%s\"}", rn(r));
        if (flush) log_flush();
    }
    log_close();
    return 0;
}
