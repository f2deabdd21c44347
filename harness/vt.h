// Virtual time and event log shared by the trace drivers.
#ifndef VT_H
#define VT_H
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stddef.h>

void vt_enable(int64_t start);          // switch to virtual time on this thread's process
void vt_thread(int64_t start, const char *path); // a clock and log of its own for this thread
int64_t vt_now(void);                   // read without advancing
void vt_advance(int64_t ns);
extern void (*vt_idle)(int64_t now, int64_t until); // called before the thread would sleep
extern void (*vt_poll)(void);           // called on every event poll (may be NULL)
extern bool (*vt_spin)(int64_t now, long n); // the scheduler polled many times since event n and nothing happened
extern int vt_realwait_us;
extern int vt_accel;
extern int64_t vt_scale;              

void log_open(const char *path);
void log_ev(const char *fmt, ...) __attribute__((format(printf,1,2)));
bool log_if(long n, const char *fmt, ...) __attribute__((format(printf,2,3)));   // only if there was no event after n
void log_close(void);
void log_flush(void);
#define log_count (*vt_count())
long *vt_count(void);

uint64_t rng_next(uint64_t *st);
#define RN(st, n) ((int)(rng_next(st) % (uint64_t)(n)))
#endif
