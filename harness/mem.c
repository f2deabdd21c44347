#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/mman.h>
#include "neco.h"
#include "vt.h"
#include "mem.h"

#define MAGIC UINT64_C(0x5ca1ab1e0ddba11)
#define DEAD UINT64_C(0xdeadbeefcafef00d)
#define NQ 64
struct hdr { uint64_t magic; size_t n; uint64_t gen; uint64_t pad; };
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static long blocks, bad, allocs, failat;
static int failpct, fds0;
static long startup;      // allocations before the first coroutine ran
static uint64_t seed;
static struct hdr *quar[NQ];
static int nquar;
#define MAXMAP 4096
static struct { void *p; size_t n; } map[MAXMAP];

static bool fails(void) {
    allocs++;
    bool f = allocs == failat;
    if (!f && failpct && startup) f = (int)(rng_next(&seed) % 100) < failpct;
    if (f) log_ev("{\"e\":\"nomem\",\"t\":0}");
    return f;
}
static void checkdead(struct hdr *h) {
    unsigned char *p = (unsigned char*)(h + 1);
    for (size_t i = 0; i < h->n; i++) if (p[i] != 0xDD) { bad++; break; }
}
static void *m_malloc(size_t n) {
    pthread_mutex_lock(&mu);
    void *r = NULL;
    if (!fails()) {
        struct hdr *h = malloc(sizeof(*h) + n + 16);
        h->magic = MAGIC; h->n = n;
        memset(h + 1, 0xA5, n);
        memset((char*)(h + 1) + n, 0x3C, 16);
        blocks++;
        r = h + 1;
    }
    pthread_mutex_unlock(&mu);
    return r;
}
static void m_free1(void *p) {
    if (!p) return;
    struct hdr *h = (struct hdr*)p - 1;
    if (h->magic != MAGIC) { bad++; return; }
    unsigned char *e = (unsigned char*)p + h->n;
    for (int i = 0; i < 16; i++) if (e[i] != 0x3C) { bad++; break; }
    h->magic = DEAD;
    memset(p, 0xDD, h->n);
    blocks--;
    // keep it for a while: late writes are found when it leaves the quarantine
    int i = nquar++ % NQ;
    if (quar[i]) { checkdead(quar[i]); free(quar[i]); }
    quar[i] = h;
}
static void m_free(void *p) {
    pthread_mutex_lock(&mu);
    m_free1(p);
    pthread_mutex_unlock(&mu);
}
static void *m_realloc(void *p, size_t n) {
    if (!p) return m_malloc(n);
    struct hdr *h = (struct hdr*)p - 1;
    if (h->magic != MAGIC) { bad++; return NULL; }
    size_t old = h->n;
    void *q = m_malloc(n);
    if (!q) return NULL;
    memcpy(q, p, old < n ? old : n);
    m_free(p);
    return q;
}
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
static bool on;
void *__wrap_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
    if (!on || a) return __real_mmap(a, n, prot, flags, fd, off);
    pthread_mutex_lock(&mu);
    void *p = MAP_FAILED;
    if (fails()) errno = ENOMEM;
    else {
        p = __real_mmap(a, n, prot, flags, fd, off);
        for (int i = 0; p != MAP_FAILED && i < MAXMAP; i++) {
            if (!map[i].p) { map[i].p = p; map[i].n = n; break; }
        }
    }
    pthread_mutex_unlock(&mu);
    return p;
}
int __wrap_munmap(void *a, size_t n) {
    if (!on) return __real_munmap(a, n);
    pthread_mutex_lock(&mu);
    int i, r = -1;
    for (i = 0; i < MAXMAP; i++) if (map[i].p == a) break;
    if (i == MAXMAP || map[i].n != n) { bad++; }
    else { map[i].p = NULL; r = __real_munmap(a, n); }
    pthread_mutex_unlock(&mu);
    return r;
}
void mem_install(void) {
    on = true;
    neco_env_setallocator(m_malloc, m_realloc, m_free);
}
int mem_nfds(void) {
    DIR *d = opendir("/proc/self/fd");
    if (!d) return -1;
    int n = 0;
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
void mem_begin(long failat_, int pct, unsigned long long s) {
    blocks = bad = allocs = startup = 0;
    failat = failat_; failpct = pct; seed = s;
    memset(map, 0, sizeof(map));
    fds0 = mem_nfds();
}
void mem_failpct(int pct) { failpct = pct; }
void mem_started(void) { startup = allocs ? allocs : 1; }
void mem_counts(struct mem_counts *c) {
    for (int i = 0; i < NQ; i++) if (quar[i]) { checkdead(quar[i]); free(quar[i]); quar[i] = NULL; }
    nquar = 0;
    c->blocks = blocks; c->bad = bad; c->allocs = allocs; c->startup = startup; c->maps = 0;
    for (int i = 0; i < MAXMAP; i++) c->maps += map[i].p != NULL;
    c->fds = mem_nfds() - fds0;
}
