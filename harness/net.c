// Trace driver for networking: coroutines serve, dial, accept, connect, look up
// names and make pipes, with deadlines, cancels and injected failures of the
// system calls. Names are resolved by a stand-in. Events are validated against
// spec/NecoNet.tla. Everything stays on the loopback network and in the working
// directory (a scratch directory of the check), besides the sockets in /tmp that
// neco_pipe itself makes.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <dirent.h>
#include <netdb.h>
#include <signal.h>
#include <pthread.h>
#include <time.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "neco.h"
#include "vt.h"

#define NC 7            // coroutines (0: none)
#define NL 12           // listeners
#define ND 200          // connections
#define MS 1000000LL
int __real_socket(int, int, int);
int __real_connect(int, const struct sockaddr *, socklen_t);
int __real_accept(int, struct sockaddr *, socklen_t *);
int __real_bind(int, const struct sockaddr *, socklen_t);
int __real_listen(int, int);
int __real_setsockopt(int, int, int, const void *, socklen_t);
int __real_fcntl(int, int, ...);
int __real_pipe(int *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_nanosleep(const struct timespec *, struct timespec *);
ssize_t __real_write(int, const void *, size_t);

int neco_pipe(int pipefd[2]);
struct lis { int fd; int hold; bool taken, open, un; char addr[300]; int port; struct sockaddr_storage sa; socklen_t salen; };
static struct lis L[NL + 1];
static int nl;
struct conn { int fd; int x; };
static struct conn D[ND + 1], A[ND + 1];
static int nd, na;
static struct { int64_t id; bool alive, inop, dns, inpipe; int fd, accx, path; int parked; } C[NC + 1];
static int nc;
static uint64_t prng;
static int64_t T0;
static int p_fault, p_mem, p_cancel = 1, p_async = 30, p_zero, p_v6;
static int fullfd = -1, fullfill[64], nfull, fullport, refport;
static char fullun[64];
static long live_mem, live_ai, nthreads, gai_active;
static bool dns_go;
static pthread_mutex_t gmu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t gcv = PTHREAD_COND_INITIALIZER;
static pthread_t mainth;
static bool running;

static long tnow(void) { return (long)(vt_now() - T0); }
static void rsleep(long us) { __real_nanosleep(&(struct timespec){ .tv_sec = us / 1000000, .tv_nsec = us % 1000000 * 1000 }, 0); }

static const char *en(long r) {
    switch (r) {
    case NECO_OK: return "OK";
    case NECO_TIMEDOUT: return "TIMEDOUT";
    case NECO_CANCELED: return "CANCELED";
    case NECO_ERROR: return "ERROR";
    case NECO_INVAL: return "INVAL";
    case NECO_PERM: return "PERM";
    case NECO_NOMEM: return "NOMEM";
    case NECO_GAIERROR: return "GAIERROR";
    case NECO_NOTFOUND: return "NOTFOUND";
    }
    return "OTHER";
}
// ------------------------------------------------------------------ faults
static char paths[100][128];    // of the sockets of neco_pipe
static int npaths;
static uint64_t faultseed = 88172645463325252u;
static int rnd(int n) {
    faultseed ^= faultseed << 13; faultseed ^= faultseed >> 7; faultseed ^= faultseed << 17;
    return (int)((faultseed >> 11) % (uint64_t)n);
}
// the coroutine on whose behalf the library is working, or 0
static int who(void) {
    if (!running || !pthread_equal(pthread_self(), mainth)) return 0;
    int64_t id = neco_getid();
    if (id <= 0) return 0;
    for (int c = 1; c <= nc; c++) if (C[c].id == id) return C[c].inop ? c : 0;
    id = neco_starterid();      // the helper of a pipe
    for (int c = 1; c <= nc; c++) if (C[c].id == id) return C[c].inop && C[c].inpipe ? c : 0;
    return 0;
}
static int fault(const char *w, const int *nos, int nn) {
    if (!p_fault || !running) return 0;
    int e = errno, c = who();
    errno = e;
    if (!c || rnd(100) >= p_fault) return 0;
    int no = nos[rnd(nn)];
    if (C[c].inpipe && (!strcmp(w, "listen") || !strcmp(w, "fcntl")) && C[c].path) {
        unlink(paths[C[c].path - 1]);   // a listener that cannot be made leaves its path
        C[c].path = 0;
    }
    // the path of a pipe is in use: it takes another one
    if (no == EADDRINUSE && C[c].inpipe) return no;
    if (no != EINTR && no != EAGAIN) log_ev("{\"e\":\"flt\",\"c\":%d,\"w\":\"%s\",\"no\":%d,\"t\":%ld}", c, w, no, tnow());
    return no;
}
#define FAULT(w, ...) do { static const int nos[] = { __VA_ARGS__ }; int no = fault(w, nos, sizeof(nos) / sizeof(int)); \
    if (no) { errno = no; return -1; } } while (0)
int __wrap_socket(int d, int t, int p) {
    FAULT("socket", EMFILE, ENFILE, EACCES, ENOMEM, ENOBUFS);
    return __real_socket(d, t, p);
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n) {
    FAULT("connect", EINTR, EINTR, EACCES, EPERM, ENETUNREACH, EADDRNOTAVAIL);
    int r = __real_connect(fd, a, n), e = errno;
    int c = who();
    if (c) C[c].fd = r == -1 && e == EINPROGRESS ? fd : -1;
    errno = e;
    return r;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *n) {
    FAULT("accept", EINTR, EAGAIN, EINTR, ECONNABORTED, EMFILE, ENFILE, ENOMEM, EPERM);
    return __real_accept(fd, a, n);
}
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n) {
    FAULT("bind", EACCES, EADDRINUSE, ENOMEM, EINVAL);
    int r = __real_bind(fd, a, n), e = errno, c = who();
    if (r == 0 && c && C[c].inpipe && a->sa_family == AF_UNIX && npaths < 100) {
        strcpy(paths[npaths++], ((struct sockaddr_un*)a)->sun_path);
        C[c].path = npaths;
    }
    errno = e;
    return r;
}
int __wrap_listen(int fd, int n) {
    FAULT("listen", EADDRINUSE, EOPNOTSUPP);
    return __real_listen(fd, n);
}
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) {
    FAULT("setsockopt", ENOPROTOOPT, EINVAL);
    return __real_setsockopt(fd, l, o, v, n);
}
int __wrap_fcntl(int fd, int cmd, long arg) {
    FAULT("fcntl", EIO, EINVAL);
    return __real_fcntl(fd, cmd, arg);
}
int __wrap_pipe(int *p) {
    FAULT("pipe", EMFILE, ENFILE);
    return __real_pipe(p);
}
// ----------------------------------------------------------------- threads
static __thread int in_gai;     // 1 looking up, 2 the result is on its way
struct tramp { void *(*fn)(void *); void *arg; bool gai; };
static void *tramp(void *v) {
    struct tramp t = *(struct tramp*)v;
    free(v);
    in_gai = t.gai;
    void *r = t.fn(t.arg);
    if (in_gai == 1) __atomic_sub_fetch(&gai_active, 1, __ATOMIC_SEQ_CST);
    __atomic_sub_fetch(&nthreads, 1, __ATOMIC_SEQ_CST);
    return r;
}
int __wrap_pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    int c = who();
    bool gai = c && C[c].dns;
    if (gai) {
        static const int nos[] = { EAGAIN, ENOMEM };
        if (p_fault && rnd(100) < p_fault) {
            int no = nos[rnd(2)];
            log_ev("{\"e\":\"flt\",\"c\":%d,\"w\":\"thread\",\"no\":%d,\"t\":%ld}", c, no, tnow());
            return no;
        }
    }
    struct tramp *t = malloc(sizeof(*t));
    *t = (struct tramp){ fn, arg, gai };
    __atomic_add_fetch(&nthreads, 1, __ATOMIC_SEQ_CST);
    if (gai) __atomic_add_fetch(&gai_active, 1, __ATOMIC_SEQ_CST);
    int r = __real_pthread_create(th, at, tramp, t);
    if (r) abort();
    return 0;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    ssize_t r = __real_write(fd, b, n);
    if (in_gai == 1) {
        in_gai = 2;
        __atomic_sub_fetch(&gai_active, 1, __ATOMIC_SEQ_CST);
    }
    return r;
}
// before the scheduler looks at the descriptors: let running lookups finish
static void on_poll(void) {
    for (int i = 0; i < 20000 && __atomic_load_n(&gai_active, __ATOMIC_SEQ_CST) > 0; i++) rsleep(50);
}
// ---------------------------------------------------------------- resolver
static struct addrinfo *mkai(const char *ip, int port, struct addrinfo *next, const struct addrinfo *h) {
    struct addrinfo *a = calloc(1, sizeof(*a) + sizeof(struct sockaddr_in6));
    __atomic_add_fetch(&live_ai, 1, __ATOMIC_SEQ_CST);
    struct sockaddr_in *s4 = (void*)(a + 1);
    struct sockaddr_in6 *s6 = (void*)(a + 1);
    if (inet_pton(AF_INET, ip, &s4->sin_addr) == 1) {
        s4->sin_family = a->ai_family = AF_INET;
        s4->sin_port = htons((uint16_t)port);
        a->ai_addrlen = sizeof(*s4);
    } else {
        inet_pton(AF_INET6, ip, &s6->sin6_addr);
        s6->sin6_family = a->ai_family = AF_INET6;
        s6->sin6_port = htons((uint16_t)port);
        a->ai_addrlen = sizeof(*s6);
    }
    a->ai_socktype = h ? h->ai_socktype : SOCK_STREAM;
    a->ai_protocol = h ? h->ai_protocol : 0;
    a->ai_addr = (void*)(a + 1);
    a->ai_next = next;
    return a;
}
void __wrap_freeaddrinfo(struct addrinfo *a) {
    while (a) {
        struct addrinfo *n = a->ai_next;
        memset(a, 0xee, sizeof(*a));
        free(a);
        __atomic_sub_fetch(&live_ai, 1, __ATOMIC_SEQ_CST);
        a = n;
    }
}
int __wrap_getaddrinfo(const char *node, const char *service, const struct addrinfo *h, struct addrinfo **res) {
    struct in6_addr tmp;
    *res = NULL;
    char *end = "";
    long port = service && *service ? strtol(service, &end, 10) : -1;
    if (*end || port < 0 || port > 65535) return EAI_SERVICE;
    bool v4 = inet_pton(AF_INET, node, &tmp) == 1, v6 = inet_pton(AF_INET6, node, &tmp) == 1;
    if (v4 || v6) {
        if (h && ((h->ai_family == AF_INET && v6) || (h->ai_family == AF_INET6 && v4))) return EAI_ADDRFAMILY;
        *res = mkai(node, (int)port, 0, h);
        return 0;
    }
    if (!strncmp(node, "slow", 4)) {
        int c = node[4] - '0';
        pthread_mutex_lock(&gmu);
        if (!dns_go) {
            C[c].parked++;
            __atomic_sub_fetch(&gai_active, 1, __ATOMIC_SEQ_CST);
            while (!dns_go) pthread_cond_wait(&gcv, &gmu);
            C[c].parked--;
            __atomic_add_fetch(&gai_active, 1, __ATOMIC_SEQ_CST);
        }
        pthread_mutex_unlock(&gmu);
        node += 6;      // slow3.one.test
    }
    if (!strcmp(node, "one.test")) *res = mkai("127.0.0.1", (int)port, 0, h);
    else if (!strcmp(node, "two.test")) *res = mkai("127.0.0.2", (int)port, mkai("127.0.0.1", (int)port, 0, h), h);
    else if (!strcmp(node, "first.test")) *res = mkai("127.0.0.1", (int)port, mkai("127.0.0.1", fullport, 0, h), h);
    else if (!strcmp(node, "full.test")) *res = mkai("127.0.0.1", fullport, mkai("127.0.0.1", (int)port, 0, h), h);
    else if (!strcmp(node, "ref.test")) *res = mkai("127.0.0.2", (int)port, mkai("127.0.0.3", (int)port, 0, h), h);
    else if (!strcmp(node, "empty.test")) return 0;
    else if (!strcmp(node, "mem.test")) return EAI_MEMORY;
    else if (!strcmp(node, "sys.test")) { errno = EIO; return EAI_SYSTEM; }
    else return EAI_NONAME;
    return 0;
}
// --------------------------------------------------------------- allocator
static void *mfail(void) {
    if (!p_mem || !running) return (void*)1;
    int c = who();
    if (!c || rnd(100) >= p_mem) return (void*)1;
    log_ev("{\"e\":\"flt\",\"c\":%d,\"w\":\"mem\",\"no\":12,\"t\":%ld}", c, tnow());
    return NULL;
}
static void *nmalloc(size_t n) {
    if (!mfail()) { errno = ENOMEM; return NULL; }
    __atomic_add_fetch(&live_mem, 1, __ATOMIC_SEQ_CST);
    void *p = malloc(n);
    memset(p, 0xa5, n);
    return p;
}
static void *nrealloc(void *p, size_t n) {
    if (!mfail()) { errno = ENOMEM; return NULL; }
    if (!p) __atomic_add_fetch(&live_mem, 1, __ATOMIC_SEQ_CST);
    return realloc(p, n);
}
static void nfree(void *p) {
    if (p) __atomic_sub_fetch(&live_mem, 1, __ATOMIC_SEQ_CST);
    free(p);
}
// -------------------------------------------------------------------- idle
static bool pollfd1(int fd, short ev) {
    struct pollfd p = { .fd = fd, .events = ev };
    return poll(&p, 1, 0) == 1 && (p.revents & (ev | POLLHUP | POLLERR));
}
static void on_idle(int64_t now, int64_t until) {
    char lr[100] = "", cr[100] = "";
    for (int x = 1; x <= nl; x++) {
        if (L[x].open && pollfd1(L[x].fd, POLLIN)) sprintf(lr + strlen(lr), *lr ? ",%d" : "%d", x);
    }
    pthread_mutex_lock(&gmu);
    for (int c = 1; c <= nc; c++) {
        if (!C[c].inop) continue;
        bool ready = C[c].fd != -1 ? pollfd1(C[c].fd, POLLOUT) : !(C[c].dns && C[c].parked > 0);
        if (ready) sprintf(cr + strlen(cr), *cr ? ",%d" : "%d", c);
    }
    pthread_mutex_unlock(&gmu);
    if (until - T0 > 1900000000) {
        log_ev("{\"e\":\"stuck\",\"t\":2000000000}");
        log_close();
        _exit(7);
    }
    log_ev("{\"e\":\"idle\",\"lr\":[%s],\"cr\":[%s],\"u\":%ld,\"t\":%ld}", lr, cr, (long)(until - T0), (long)(now - T0));
}
static int64_t pickdl(uint64_t *R, long *d) {
    int r = RN(R, 100);
    if (r < 6) {
        *d = 0;
        return RN(R, 2) ? 0 : -1;
    }
    if (r < 45) { *d = -1; return INT64_MAX; }
    int64_t t = T0 + ((vt_now() - T0) / MS + 1 + RN(R, 5)) * MS;
    *d = (long)(t - T0);
    return t;
}
// -------------------------------------------------------------- operations
static long live_co(void) {
    neco_stats s;
    return neco_getstats(&s) == NECO_OK ? (long)s.coroutines : -1;
}
static bool nonblock(int fd) {
    int f = __real_fcntl(fd, F_GETFL, 0);
    return f != -1 && (f & O_NONBLOCK);
}
static bool connected(int fd) {
    struct sockaddr_storage ss;
    socklen_t n = sizeof(ss);
    int err = -1;
    socklen_t en_ = sizeof(err);
    return getpeername(fd, (void*)&ss, &n) == 0 && getsockopt(fd, SOL_SOCKET, SO_ERROR, &err, &en_) == 0 && err == 0;
}
static int pickl(uint64_t *R) {
    int x = nl == 0 ? 0 : RN(R, 3) ? nl - RN(R, nl < 3 ? nl : 3) : 1 + RN(R, nl);
    return L[x].taken ? 0 : x;
}

static void begin(int c, const char *o, const char *k, int x, const char *multi, long d, bool dns) {
    log_ev("{\"e\":\"call\",\"c\":%d,\"o\":\"%s\",\"k\":\"%s\",\"x\":%d,\"m\":\"%s\",\"d\":%ld,\"t\":%ld}", c, o, k, x, multi, d, tnow());
    C[c].inop = true;
    C[c].dns = dns;
    C[c].fd = -1;
    C[c].accx = !strcmp(o, "accept") ? x : 0;
    errno = 0;
}
static void end(int c, long r, int f, bool good, const char *what) {
    int no = errno, le = neco_lasterr();
    C[c].inop = C[c].inpipe = false;
    const char *res = what ? what : r >= 0 ? "OK" : r == NECO_ERROR ? en(le) : en(r);
    log_ev("{\"e\":\"ret\",\"c\":%d,\"r\":\"%s\",\"no\":%d,\"le\":\"%s\",\"f\":%d,\"good\":%s,\"nco\":%ld,\"t\":%ld}", c, res, no,
        en(le), f, good ? "true" : "false", live_co(), tnow());
}
static const char *longpath(int len) {
    static char p[300];
    static unsigned n;
    sprintf(p, "u%d.%u_", getpid(), n++);
    size_t k = strlen(p);
    memset(p + k, 'p', (size_t)len - k);
    p[len] = 0;
    return p;
}
static void do_serve(int c, uint64_t *R) {
    long d;
    int64_t dl = pickdl(R, &d);
    const char *net = "tcp", *k = "tcp", *addr = "127.0.0.1:0";
    char buf[300];
    bool un = false, dns = false;
    int x = 0;
    bool any = false;
    switch (RN(R, 18)) {
    case 0: net = "tcp4"; break;
    case 15: addr = ":0"; any = true; if (p_v6 && RN(R, 3) == 0) net = "tcp6"; else if (RN(R, 2)) net = "tcp4"; break;
    case 16: x = pickl(R);
        if (x && !L[x].un && L[x].open && L[x].sa.ss_family == AF_INET) { sprintf(buf, "127.0.0.1:%d", L[x].port); addr = buf; k = "tcpused"; }
        x = 0; break;
    case 17: if (RN(R, 2)) { net = "tcp4"; addr = "[::1]:0"; } else { net = "tcp6"; addr = "127.0.0.1:0"; } k = "gai"; break;
    case 1: net = RN(R, 2) ? "udp" : RN(R, 2) ? "TCP" : ""; k = "inval"; break;
    case 2: addr = RN(R, 3) ? RN(R, 2) ? "127.0.0.1" : "localhost" : ""; k = "inval"; break;
    case 3: if (RN(R, 2)) net = NULL; else addr = NULL; k = "inval"; break;
    case 4: case 5: net = "unix"; addr = longpath(24 + RN(R, 40)); k = "unix"; un = true; break;
    case 6: net = "unix"; addr = longpath(107); k = "unix"; un = true; break;
    case 7: net = "unix"; addr = longpath(108 + RN(R, 2) * RN(R, 60)); k = "inval"; un = true; break;
    case 8: sprintf(buf, "slow%d.one.test:0", c); addr = buf; dns = true; break;
    case 9: addr = "one.test:0"; dns = true; break;
    case 10: addr = RN(R, 2) ? "none.test:0" : "empty.test:0"; k = "gai"; dns = true; break;
    case 11: addr = "127.0.0.1:port"; k = "gai"; break;
    case 12: x = pickl(R); if (x && L[x].un && L[x].open) { net = "unix"; addr = L[x].addr; k = "unixused"; } x = 0; break;
    case 13: if (p_v6) { net = RN(R, 2) ? "tcp6" : "tcp"; addr = "[::1]:0"; } break;
    default: break;
    }
    if (nl >= NL && (!strcmp(k, "tcp") || !strcmp(k, "unix"))) return;
    begin(c, "serve", k, 0, "no", d, dns);
    int fd = d == -1 ? neco_serve(net, addr) : neco_serve_dl(net, addr, dl);
    int no = errno, le = neco_lasterr();
    int f = 0;
    bool good = true;
    if (fd >= 0) {
        f = ++nl;
        struct lis *l = &L[f];
        memset(l, 0, sizeof(*l));
        l->fd = fd; l->open = true; l->un = un;
        l->salen = sizeof(l->sa);
        good = nonblock(fd) && getsockname(fd, (void*)&l->sa, &l->salen) == 0;
        int val = 0;
        socklen_t vl = sizeof(val);
        good = good && getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &val, &vl) == 0 && val;
        if (un) {
            struct stat st;
            good = good && l->sa.ss_family == AF_UNIX && stat(addr, &st) == 0 && S_ISSOCK(st.st_mode);
            strcpy(l->addr, addr);
        } else if (l->sa.ss_family == AF_INET6) {
            l->port = ntohs(((struct sockaddr_in6*)&l->sa)->sin6_port);
            struct in6_addr lo = IN6ADDR_LOOPBACK_INIT, an = IN6ADDR_ANY_INIT, *ha = &((struct sockaddr_in6*)&l->sa)->sin6_addr;
            good = good && !memcmp(ha, any ? &an : &lo, sizeof(lo)) && l->port > 0;
        } else {
            l->port = ntohs(((struct sockaddr_in*)&l->sa)->sin_port);
            good = good && l->port > 0 && ((struct sockaddr_in*)&l->sa)->sin_addr.s_addr == htonl(any ? INADDR_ANY : INADDR_LOOPBACK);
        }
    }
    errno = no;
    (void)le;
    end(c, fd, f, good, 0);
}
static void tag(int fd, int v) {
    if (send(fd, &v, 4, MSG_NOSIGNAL | MSG_DONTWAIT) != 4) {}
}
static int readtag(int fd) {
    int v = 0;
    return recv(fd, &v, 4, MSG_DONTWAIT) == 4 ? v : 0;
}
static void do_dial(int c, uint64_t *R) {
    long d;
    int64_t dl = pickdl(R, &d);
    const char *net = "tcp", *k = "lis", *m = "no";
    char buf[300] = "";
    const char *addr = buf;
    bool dns = false;
    int x = pickl(R), port = x ? L[x].port : refport;
    bool un = x && L[x].un, v6 = x && L[x].sa.ss_family == AF_INET6;
    int kind = RN(R, 20);
    if (!x && kind >= 8) kind = RN(R, 8);
    switch (kind) {
    case 0: net = RN(R, 2) ? "udp" : RN(R, 2) ? "tcp5" : ""; sprintf(buf, "127.0.0.1:%d", refport); k = "inval"; x = 0; break;
    case 1: addr = RN(R, 3) ? RN(R, 2) ? "127.0.0.1" : "localhost" : ""; k = "inval"; x = 0; break;
    case 2: if (RN(R, 2)) net = NULL; else addr = NULL; k = "inval"; x = 0; break;
    case 3: net = "unix"; addr = longpath(108 + RN(R, 2) * RN(R, 60)); k = "inval"; x = 0; break;
    case 4: net = "unix"; addr = longpath(RN(R, 2) ? 107 : 30); k = "noent"; x = 0; break;
    case 5: sprintf(buf, "127.0.0.1:%d", refport); k = "refused"; x = 0; break;
    case 6: { static const char *n[] = { "none", "empty", "mem", "sys", "ref" };
        int j = RN(R, 5);
        if (RN(R, 2)) sprintf(buf, "%s.test:%d", n[j], refport); else sprintf(buf, "slow%d.%s.test:%d", c, n[j], refport);
        k = j <= 1 ? "gai" : j == 2 ? "mem" : j == 3 ? "sys" : "refused"; if (j == 4) m = "ref"; dns = true; x = 0; break; }
    case 7: if (RN(R, 3)) { sprintf(buf, "127.0.0.1:%d", fullport); k = "full"; }
            else { net = "unix"; addr = fullun; k = "fullun"; }
            x = 0; break;
    default:
        if (un) { net = "unix"; addr = L[x].addr; break; }
        if (v6) {
            net = RN(R, 2) ? "tcp6" : "tcp";
            if (RN(R, 4)) sprintf(buf, "[::1]:%d", port); else { net = "tcp6"; sprintf(buf, ":%d", port); }
            break;
        }
        if (RN(R, 2)) net = "tcp4";
        switch (kind % 8) {
        case 0: sprintf(buf, ":%d", port); break;
        case 1: sprintf(buf, "127.0.0.1:%d", port); break;
        case 2: sprintf(buf, "one.test:%d", port); dns = true; break;
        case 3: sprintf(buf, "two.test:%d", port); dns = true; m = "ref"; break;
        case 4: sprintf(buf, "full.test:%d", port); dns = true; m = "full"; break;
        case 5: sprintf(buf, "first.test:%d", port); dns = true; m = "first"; break;
        case 6: sprintf(buf, "slow%d.%s.test:%d", c, RN(R, 2) ? "one" : "two", port); dns = true; m = "ref"; break;
        case 7: sprintf(buf, "[127.0.0.1]:%d", port); break;
        }
    }
    if (nd >= ND) return;
    begin(c, "dial", k, x, m, d, dns);
    int fd = d == -1 ? neco_dial(net, addr) : neco_dial_dl(net, addr, dl);
    int no = errno;
    int f = 0;
    bool good = true;
    if (fd >= 0) {
        f = ++nd;
        D[f].fd = fd; D[f].x = x;
        good = nonblock(fd) && connected(fd);
        tag(fd, f);
    }
    errno = no;
    end(c, fd, f, good, 0);
}
static void do_connect(int c, uint64_t *R) {
    long d;
    int64_t dl = pickdl(R, &d);
    int x = pickl(R), f = 0;
    const char *k = "lis";
    struct sockaddr_storage ss;
    socklen_t n;
    bool un = false;
    if (!x || RN(R, 6) == 0) {
        struct sockaddr_in *s4 = (void*)&ss;
        memset(&ss, 0, sizeof(ss));
        s4->sin_family = AF_INET;
        s4->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        bool full = RN(R, 2);
        s4->sin_port = htons((uint16_t)(full ? fullport : refport));
        n = sizeof(*s4);
        k = full ? "full" : "refused";
        x = 0;
    } else {
        ss = L[x].sa; n = L[x].salen; un = L[x].un;
    }
    if (nd >= ND) return;
    int fd = __real_socket(un ? AF_UNIX : x ? ss.ss_family : AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
    f = ++nd;               // also after a failure: the descriptor is the caller's
    D[f].fd = fd; D[f].x = x;
    begin(c, "connect", k, x, "no", d, false);
    int r = d == -1 ? neco_connect(fd, (void*)&ss, n) : neco_connect_dl(fd, (void*)&ss, n, dl);
    int no = errno;
    bool good = true;
    if (r == 0) {
        good = connected(fd);
        tag(fd, f);
    }
    errno = no;
    end(c, r, r == 0 ? f : 0, good, 0);
    if (r == 0 && RN(R, 2) && connected(fd)) {
        // again, on the connected socket
        dl = pickdl(R, &d);
        begin(c, "connect", un ? "isconnun" : "isconn", 0, "no", d, false);
        r = d == -1 ? neco_connect(fd, (void*)&ss, n) : neco_connect_dl(fd, (void*)&ss, n, dl);
        end(c, r, 0, true, 0);
    }
}
// operations on descriptors that are not fit for them
static int notlis = -1;
static void do_unfit(int c, uint64_t *R) {
    long d;
    int64_t dl = pickdl(R, &d);
    int k = RN(R, 5), p[2], r;
    struct sockaddr_in sa = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) };
    bool good = true;
    if (k == 0) {
        begin(c, "accept", "badfd", 0, "no", d, false);
        r = d == -1 ? neco_accept(-1, 0, 0) : neco_accept_dl(-1, 0, 0, dl);
    } else if (k == 1) {
        begin(c, "accept", "notlis", 0, "no", d, false);
        r = d == -1 ? neco_accept(notlis, 0, 0) : neco_accept_dl(notlis, 0, 0, dl);
    } else if (k == 2) {
        begin(c, "connect", "badfd", 0, "no", d, false);
        r = d == -1 ? neco_connect(-1, (void*)&sa, sizeof(sa)) : neco_connect_dl(-1, (void*)&sa, sizeof(sa), dl);
    } else if (k == 3) {
        begin(c, "nb", "nbbad", 0, "no", -1, false);
        bool o = true;
        r = neco_setnonblock(-1, RN(R, 2), &o);
        good = o;
    } else {
        if (pipe(p)) return;
        begin(c, "nb", "nb", 0, "no", -1, false);
        bool was = false;
        r = 0;
        for (int i = 0; i < 4 && r == 0; i++) {
            bool v = RN(R, 2), o = !was, w = RN(R, 2);
            r = neco_setnonblock(p[1], v, w ? &o : 0);
            if (r == 0) {
                good = good && (!w || o == was) && nonblock(p[1]) == v && (__real_fcntl(p[1], F_GETFL, 0) & O_ACCMODE) == O_WRONLY;
                was = v;
            } else good = good && nonblock(p[1]) == was;
        }
        int no = errno;
        close(p[0]); close(p[1]);
        errno = no;
    }
    end(c, r, 0, good, 0);
}
static void do_accept(int c, uint64_t *R) {
    long d;
    int64_t dl = pickdl(R, &d);
    int x = pickl(R);
    if (!x || !L[x].open || na >= ND) return;
    begin(c, "accept", "lis", x, "no", d, false);
    struct sockaddr_storage ss, ps;
    socklen_t n = sizeof(ss), pn = sizeof(ps);
    memset(&ss, 0, sizeof(ss)); memset(&ps, 0, sizeof(ps));
    bool want = RN(R, 2);
    int fd = d == -1 ? neco_accept(L[x].fd, want ? (void*)&ss : 0, want ? &n : 0) :
        neco_accept_dl(L[x].fd, want ? (void*)&ss : 0, want ? &n : 0, dl);
    int no = errno, f = 0;
    bool good = true;
    if (fd >= 0) {
        f = ++na;
        A[f].fd = fd; A[f].x = x;
        good = nonblock(fd);
        if (want && getpeername(fd, (void*)&ps, &pn) == 0) good = good && n == pn && !memcmp(&ss, &ps, n);
    }
    errno = no;
    end(c, fd, f, good, 0);
}
static bool xfer(int a, int b) {
    char buf[64], out[64];
    for (int i = 0; i < 40; i++) buf[i] = (char)(i * 3 + a);
    return send(a, buf, 40, MSG_DONTWAIT) == 40 && recv(b, out, 64, MSG_DONTWAIT) == 40 && !memcmp(buf, out, 40);
}
static void do_pipe(int c, uint64_t *R) {
    int p[2] = { -77, -78 };
    bool inval = RN(R, 12) == 0;
    begin(c, "pipe", inval ? "inval" : "pipe", 0, "no", -1, false);
    C[c].inpipe = true;
    int r = neco_pipe(inval ? NULL : p);
    int no = errno;
    bool good = r == 0 ? nonblock(p[0]) && nonblock(p[1]) && p[0] != p[1] && xfer(p[0], p[1]) && xfer(p[1], p[0]) :
        p[0] == -77 && p[1] == -78;
    if (r == 0) { close(p[0]); close(p[1]); }
    errno = no;
    end(c, r, 0, good, 0);
}
static void do_gai(int c, uint64_t *R) {
    long d;
    int64_t dl = pickdl(R, &d);
    static const char *n[] = { "one", "two", "none", "empty", "mem", "sys" };
    char node[64];
    int j = RN(R, 7);
    bool dns = true;
    if (j == 6) { strcpy(node, "127.0.0.1"); dns = false; }
    else if (RN(R, 2)) sprintf(node, "slow%d.%s.test", c, n[j]);
    else sprintf(node, "%s.test", n[j]);
    const char *k = j == 2 ? "gai" : j == 4 ? "mem" : j == 5 ? "sys" : "name";
    struct addrinfo h = { .ai_socktype = SOCK_STREAM }, *res = (void*)8;
    begin(c, "gai", k, 0, "no", d, dns);
    int r = d == -1 ? neco_getaddrinfo(node, "4242", &h, &res) : neco_getaddrinfo_dl(node, "4242", &h, &res, dl);
    int no = errno;
    bool good = true;
    if (r == 0) {
        int cnt = 0;
        for (struct addrinfo *a = res; a; a = a->ai_next) {
            cnt++;
            good = good && a->ai_family == AF_INET && ((struct sockaddr_in*)a->ai_addr)->sin_port == htons(4242);
        }
        good = good && cnt == (j == 1 ? 2 : j == 3 ? 0 : 1);
        __wrap_freeaddrinfo(res);
    }
    errno = no;
    end(c, 0, 0, good, r == 0 ? "OK" : r == EAI_MEMORY ? "NOMEM" : r == EAI_SYSTEM ? en(neco_lasterr()) :
        r == EAI_NONAME ? "GAIERROR" : "OTHER");
}
static void dnsgo(bool on) {
    pthread_mutex_lock(&gmu);
    dns_go = on;
    if (on) pthread_cond_broadcast(&gcv);
    pthread_mutex_unlock(&gmu);
    if (on) {
        // no lookup is left parked
        for (int i = 0; i < 40000; i++) {
            bool any = false;
            pthread_mutex_lock(&gmu);
            for (int c = 1; c <= NC; c++) any |= C[c].parked > 0;
            pthread_mutex_unlock(&gmu);
            if (!any) break;
            rsleep(50);
        }
        on_poll();
    }
}
static void closel(int x) {
    if (x && L[x].open) {
        for (int c = 1; c <= nc; c++) if (C[c].inop && C[c].accx == x) return;     // nobody may be using it
        L[x].open = false;
        close(L[x].fd);
        if (L[x].un && prng % 2) unlink(L[x].addr);
        if (!L[x].un) {
            // hold the port, so that no other process on this machine can come to listen on it
            int on = 1, fd = __real_socket(L[x].sa.ss_family, SOCK_STREAM | SOCK_CLOEXEC, 0);
            setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof(on));
            if (__real_bind(fd, (void*)&L[x].sa, L[x].salen) == 0) L[x].hold = fd + 1;
            else { close(fd); L[x].taken = true; }
        }
        log_ev("{\"e\":\"cl\",\"x\":%d,\"t\":%ld}", x, tnow());
    }
}
static void docancel(int c) {
    if (!C[c].alive || C[c].inpipe) return;
    log_ev("{\"e\":\"can\",\"c\":%d,\"t\":%ld}", c, tnow());
    neco_cancel(C[c].id);
}
static void killed(void *v) {
    int c = (int)(intptr_t)v;
    C[c].inop = C[c].alive = C[c].inpipe = false;
    log_ev("{\"e\":\"kill\",\"c\":%d,\"t\":%ld}", c, tnow());
}
static bool over;
static void co(int argc, void *argv[]) {
    (void)argc;
    int c = (int)(intptr_t)argv[0];
    uint64_t rng = prng ^ ((uint64_t)c * 7717), *R = &rng;
    bool async = RN(R, 100) < p_async;
    neco_setcanceltype(async ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, 0);
    C[c].id = neco_getid();
    C[c].alive = true;
    log_ev("{\"e\":\"st\",\"c\":%d,\"as\":%s,\"t\":%ld}", c, async ? "true" : "false", tnow());
    neco_cleanup_push(killed, (void*)(intptr_t)c);
    int nops = 3 + RN(R, 12);
    for (int i = 0; i < nops && !over; i++) {
        int k = RN(R, 28);
        if (k < 2) neco_yield();
        else if (k < 6) do_serve(c, R);
        else if (k < 13) do_dial(c, R);
        else if (k < 15) do_connect(c, R);
        else if (k < 21) do_accept(c, R);
        else if (k < 23) do_pipe(c, R);
        else if (k < 25) do_gai(c, R);
        else if (k < 27) do_unfit(c, R);
        else closel(pickl(R));
    }
    // a cancel that no operation reported must be pending
    C[c].alive = false;
    log_ev("{\"e\":\"call\",\"c\":%d,\"o\":\"fin\",\"k\":\"fin\",\"x\":0,\"m\":\"no\",\"d\":-1,\"t\":%ld}", c, tnow());
    int r = neco_sleep_dl(vt_now() + 1);
    log_ev("{\"e\":\"fin\",\"c\":%d,\"can\":%s,\"t\":%ld}", c, r == NECO_CANCELED ? "true" : "false", tnow());
    neco_cleanup_pop(0);
}
static void boot(int argc, void *argv[]) {
    (void)argc; (void)argv;
    uint64_t rng = prng * 31, *R = &rng;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    uint64_t ps = (uint64_t)getpid() << 32 ^ prng;
    neco_rand_setseed((int64_t)rng_next(&ps), 0);  // other checks may make pipes now
    int n = 2 + RN(R, NC - 1);
    for (int c = 1; c <= n; c++) {
        nc = c;
        neco_start(co, 1, (void*)(intptr_t)c);
        if (RN(R, 3) == 0) neco_sleep(RN(R, 3) * MS);
    }
    for (int i = 0; ; i++) {
        bool any = false;
        for (int c = 1; c <= nc; c++) any |= C[c].alive;
        if (!any) break;
        int c = 1 + RN(R, nc), k = RN(R, 10);
        if (i > 60) { over = true; docancel(c); neco_sleep(i > 200 ? 100 * MS : 3 * MS); }
        else if (k == 0 && p_cancel) docancel(c);
        else if (k == 1) { dnsgo(true); neco_yield(); dnsgo(false); }
        else if (k == 2) closel(pickl(R));
        else if (k < 6) neco_sleep(RN(R, 3) * MS + 100000);
        else neco_yield();
    }
    for (int c = 1; c <= nc; c++) neco_join(C[c].id);
    // what is connected to what
    for (int a = 1; a <= na; a++) {
        int d = readtag(A[a].fd);
        bool ok = d == 0;
        if (d >= 1 && d <= nd) {
            tag(A[a].fd, a);
            ok = readtag(D[d].fd) == a;
        }
        log_ev("{\"e\":\"pair\",\"a\":%d,\"d\":%d,\"ok\":%s,\"t\":%ld}", a, d, ok ? "true" : "false", tnow());
    }
    for (int x = 1; x <= nl; x++) {
        if (!L[x].open) continue;
        for (int fd; (fd = __real_accept(L[x].fd, 0, 0)) >= 0; close(fd)) {
            log_ev("{\"e\":\"left\",\"x\":%d,\"d\":%d,\"t\":%ld}", x, readtag(fd), tnow());
        }
    }
}
static int count_fds(int *max) {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    for (struct dirent *e; (e = readdir(d));) if (e->d_name[0] != '.') { n++; (void)max; }
    closedir(d);
    return n;
}
static void run_program(uint64_t seed) {
    prng = seed;
    nl = nd = na = nc = 0;
    memset(C, 0, sizeof(C));
    memset(L, 0, sizeof(L));
    over = dns_go = false;
    vt_advance(5000000);
    T0 = vt_now();
    int fds = count_fds(0);
    long mem = live_mem;
    log_ev("{\"e\":\"reset\",\"t\":0}");

    running = true;
    int r = neco_start(boot, 0);
    running = false;
    for (int i = 1; i <= nd; i++) close(D[i].fd);
    for (int i = 1; i <= na; i++) close(A[i].fd);
    for (int x = 1; x <= nl; x++) {
        if (L[x].open) close(L[x].fd);
        if (L[x].un) unlink(L[x].addr);
        if (L[x].hold) close(L[x].hold - 1);
    }
    dnsgo(true);
    // abandoned lookups clean up after themselves
    for (int i = 0; i < 100000 && __atomic_load_n(&nthreads, __ATOMIC_SEQ_CST) > 0; i++) rsleep(50);
    int socks = 0;
    for (int i = 0; i < npaths; i++) if (access(paths[i], F_OK) == 0) { socks++; unlink(paths[i]); }
    npaths = 0;
    log_ev("{\"e\":\"done\",\"r\":\"%s\",\"fds\":%d,\"ai\":%ld,\"mem\":%ld,\"th\":%ld,\"so\":%d,\"t\":%ld}", en(r), count_fds(0) - fds, live_ai,
        live_mem - mem, nthreads, socks, tnow());
}
int main(int argc, char *argv[]) {
    const char *out = NULL;
    uint64_t seed = 1;
    long n = 100, flush = 0, maxev = 0;
    for (int i = 1; i < argc; i++) {
        char *v = strchr(argv[i], '=');
        if (!v) return 9;
        *v++ = 0;
        if (!strcmp(argv[i], "out")) out = v;
        else if (!strcmp(argv[i], "seed")) seed = strtoull(v, 0, 10);
        else if (!strcmp(argv[i], "n")) n = atol(v);
        else if (!strcmp(argv[i], "maxev")) maxev = atol(v);
        else if (!strcmp(argv[i], "fault")) p_fault = atoi(v);
        else if (!strcmp(argv[i], "mem")) p_mem = atoi(v);
        else if (!strcmp(argv[i], "async")) p_async = atoi(v);
        else if (!strcmp(argv[i], "cancel")) p_cancel = atoi(v);
        else if (!strcmp(argv[i], "zero")) p_zero = atoi(v);
        else if (!strcmp(argv[i], "flush")) flush = atol(v);
        else return 9;
    }
    if (!out) return 9;
    signal(SIGPIPE, SIG_IGN);
    mainth = pthread_self();
    faultseed ^= seed * 0x9e3779b97f4a7c15u;
    log_open(out);
    neco_env_setallocator(nmalloc, nrealloc, nfree);
    // a TCP listener that answers nobody, one that refuses, a full unix one
    struct sockaddr_in sa = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) };
    socklen_t sl = sizeof(sa);
    int rf = __real_socket(AF_INET, SOCK_STREAM, 0);
    if (__real_bind(rf, (void*)&sa, sl) || getsockname(rf, (void*)&sa, &sl)) return 9;
    refport = ntohs(sa.sin_port);       // bound, never listening
    notlis = __real_socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
    sa.sin_port = 0;
    fullfd = __real_socket(AF_INET, SOCK_STREAM, 0);
    if (__real_bind(fullfd, (void*)&sa, sl) || __real_listen(fullfd, 0) || getsockname(fullfd, (void*)&sa, &sl)) return 9;
    fullport = ntohs(sa.sin_port);
    for (int i = 0; i < 4; i++) {
        fullfill[nfull] = __real_socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
        __real_connect(fullfill[nfull++], (void*)&sa, sl);
    }
    struct sockaddr_un su = { .sun_family = AF_UNIX };
    sprintf(fullun, "full.%d", getpid());
    strcpy(su.sun_path, fullun);
    int uf = __real_socket(AF_UNIX, SOCK_STREAM, 0);
    if (__real_bind(uf, (void*)&su, sizeof(su)) || __real_listen(uf, 0)) return 9;
    for (int i = 0; i < 4; i++) {
        fullfill[nfull] = __real_socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
        __real_connect(fullfill[nfull++], (void*)&su, sizeof(su));
    }
    struct sockaddr_in6 s6 = { .sin6_family = AF_INET6, .sin6_addr = IN6ADDR_LOOPBACK_INIT };
    int f6 = __real_socket(AF_INET6, SOCK_STREAM, 0);
    p_v6 = f6 != -1 && __real_bind(f6, (void*)&s6, sizeof(s6)) == 0;
    if (f6 != -1) close(f6);
    if (p_zero) close(0);
    vt_enable(INT64_C(1000000000000));
    vt_idle = on_idle;
    vt_poll = on_poll;
    for (long i = 0; i < n; i++) {
        if (maxev && log_count > maxev) break;
        run_program(seed * UINT64_C(1000003) + (uint64_t)i);
        if (flush) log_flush();
    }
    unlink(fullun);
    log_close();
    return 0;
}
