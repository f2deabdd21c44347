#define _GNU_SOURCE
#include <time.h>
#include <errno.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <pthread.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include "vt.h"

static bool on = false;
struct vt { int64_t now; FILE *lf; long count, lastcount, spins, lastcount2, spins2; };
static struct vt glob;
static __thread struct vt *own;         // a thread with its own clock and log
#define V (own ? own : &glob)
#define now_ns (V->now)
long *vt_count(void) { return &V->count; }
void vt_thread(int64_t start, const char *path) {
    own = calloc(1, sizeof(*own));
    own->now = start;
    log_open(path);
}
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
void (*vt_idle)(int64_t, int64_t) = NULL;
void (*vt_poll)(void) = NULL;
bool (*vt_spin)(int64_t, long) = NULL;
int vt_realwait_us = 0;
int vt_accel = 0;
int64_t vt_scale = 1;

int __real_clock_gettime(clockid_t, struct timespec *);
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_epoll_wait(int, struct epoll_event *, int, int);

void vt_enable(int64_t start) { on = true; now_ns = start; }
int64_t vt_now(void) { return __atomic_load_n(&now_ns, __ATOMIC_SEQ_CST); }
void vt_advance(int64_t ns) { __atomic_fetch_add(&now_ns, ns, __ATOMIC_SEQ_CST); }

int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
    if (!on || (id != CLOCK_MONOTONIC && id != CLOCK_MONOTONIC_COARSE && id != CLOCK_MONOTONIC_RAW &&
        id != CLOCK_BOOTTIME)) {
        return __real_clock_gettime(id, ts);
    }
    int64_t step = 1;
    if (vt_accel) {
        // the scheduler spins (undelivered signals): let the time pass faster
        if (log_count != V->lastcount) { V->lastcount = log_count; V->spins = 0; }
        if (++V->spins == 300 && vt_spin) { if (vt_spin(vt_now(), V->lastcount)) V->lastcount++; }
        if (V->spins > 1000) step = 20000 * vt_scale;
    }
    int64_t t = __atomic_add_fetch(&now_ns, step, __ATOMIC_SEQ_CST);
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
}

static void idle(int64_t dur) {
    int64_t t = vt_now();
    if (vt_idle) {
        vt_idle(t, t + dur);
    }
}

// The scheduler polls without sleeping because a worker thread is at work.
// Let some time pass; if it takes long, let the other thread run.
static void busy(void) {
    if (log_count != V->lastcount2) { V->lastcount2 = log_count; V->spins2 = 0; }
    if (++V->spins2 == 150 && vt_spin) { if (vt_spin(vt_now(), V->lastcount2)) V->lastcount2++; }
    if (V->spins2 < 200) { vt_advance(50000 * vt_scale); return; }
    __real_nanosleep(&(struct timespec){ .tv_nsec = 50000 }, 0);
    vt_advance(5000 * vt_scale);
}

static int vsleep(int64_t dur) {
    if (dur > 0) {
        idle(dur);
        if (vt_realwait_us) {
            __real_nanosleep(&(struct timespec){ .tv_nsec = vt_realwait_us * 1000L }, 0);
        }
        vt_advance(dur + 1);
    } else {
        busy();
    }
    return 0;
}

int __wrap_nanosleep(const struct timespec *ts, struct timespec *rem) {
    if (!on) {
        return __real_nanosleep(ts, rem);
    }
    return vsleep(ts->tv_sec * INT64_C(1000000000) + ts->tv_nsec);
}

int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __wrap_clock_nanosleep(clockid_t id, int flags, const struct timespec *ts, struct timespec *rem) {
    if (!on) {
        return __real_clock_nanosleep(id, flags, ts, rem);
    }
    int64_t d = ts->tv_sec * INT64_C(1000000000) + ts->tv_nsec;
    if (flags & TIMER_ABSTIME) {
        d -= vt_now();
    }
    return vsleep(d);
}

int __real_usleep(useconds_t);
int __wrap_usleep(useconds_t us) {
    if (!on) {
        return __real_usleep(us);
    }
    return vsleep((int64_t)us * 1000);
}

static int ewait(int qfd, struct epoll_event *evs, int n, int64_t dur) {
    if (vt_poll) {
        vt_poll();
    }
    int ret = __real_epoll_wait(qfd, evs, n, 0);
    if (ret != 0) {
        return ret;
    }
    if (dur > 0) {
        idle(dur);
        if (vt_realwait_us) {
            __real_nanosleep(&(struct timespec){ .tv_nsec = vt_realwait_us * 1000L }, 0);
            ret = __real_epoll_wait(qfd, evs, n, 0);
            if (ret != 0) {
                return ret;
            }
        }
        vt_advance(dur + 1);
        return __real_epoll_wait(qfd, evs, n, 0);
    }
    busy();
    return 0;
}

int __wrap_epoll_wait(int qfd, struct epoll_event *evs, int n, int tms) {
    if (!on) {
        return __real_epoll_wait(qfd, evs, n, tms);
    }
    return ewait(qfd, evs, n, tms < 0 ? INT64_C(1000000000) : tms * INT64_C(1000000));
}

int __real_epoll_pwait(int, struct epoll_event *, int, int, const sigset_t *);
int __wrap_epoll_pwait(int qfd, struct epoll_event *evs, int n, int tms, const sigset_t *m) {
    if (!on) {
        return __real_epoll_pwait(qfd, evs, n, tms, m);
    }
    return __wrap_epoll_wait(qfd, evs, n, tms);
}

int __real_epoll_pwait2(int, struct epoll_event *, int, const struct timespec *, const sigset_t *);
int __wrap_epoll_pwait2(int qfd, struct epoll_event *evs, int n, const struct timespec *ts, const sigset_t *m) {
    if (!on) {
        return __real_epoll_pwait2(qfd, evs, n, ts, m);
    }
    return ewait(qfd, evs, n, ts ? ts->tv_sec * INT64_C(1000000000) + ts->tv_nsec : INT64_C(1000000000));
}

// ------------------------------------------------------------------ log
#define lf (V->lf)
void log_open(const char *path) {
    lf = fopen(path, "w");
    if (!lf) {
        perror(path);
        exit(9);
    }
    setvbuf(lf, malloc(1 << 20), _IOFBF, 1 << 20);
}
void log_ev(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    pthread_mutex_lock(&mu);
    vfprintf(lf, fmt, ap);
    fputc('\n', lf);
    log_count++;
    pthread_mutex_unlock(&mu);
    va_end(ap);
}
bool log_if(long n, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    pthread_mutex_lock(&mu);
    bool ok = log_count == n;
    if (ok) {
        vfprintf(lf, fmt, ap);
        fputc('\n', lf);
        log_count++;
    }
    pthread_mutex_unlock(&mu);
    va_end(ap);
    return ok;
}
void log_flush(void) { fflush(lf); }
void log_close(void) { fclose(lf); }

uint64_t rng_next(uint64_t *st) {
    uint64_t z = (*st += UINT64_C(0x9e3779b97f4a7c15));
    z = (z ^ (z >> 30)) * UINT64_C(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)) * UINT64_C(0x94d049bb133111eb);
    return z ^ (z >> 31);
}
