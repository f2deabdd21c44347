#define _GNU_SOURCE
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <unistd.h>
#include <netdb.h>
#include <sys/socket.h>
#include "perm.h"

int neco_mutex_destroy(neco_mutex *mutex);
int neco_waitgroup_destroy(neco_waitgroup *);
int neco_cond_destroy(neco_cond *);

static void nothing(int argc, void *argv[]) { (void)argc; (void)argv; }
static void nowork(void *u) { *(int*)u = 1; }
static long sys(long r) { return r == -1 && errno == EPERM ? NECO_PERM : r == NECO_PERM ? NECO_PERM : -94; }

long perm_call(int i, struct perm_objs *o) {
    char b[1024];
    struct neco_chan *cs[2] = { o->chan, o->chan };
    struct neco_chan *mix[3] = { o->ownchan, o->ownchan, o->chan };
    neco_gen *g = (neco_gen*)o->chan;
    int64_t dl = neco_now() + 1000000;
    memset(b, 0x21, sizeof(b));
    switch (i) {
    // on objects of another runtime
    case 0: return neco_chan_send(o->chan, b);
    case 1: return neco_chan_send_dl(o->chan, b, dl);
    case 2: return neco_chan_broadcast(o->chan, b);
    case 3: return neco_chan_recv(o->chan, b);
    case 4: return neco_chan_recv_dl(o->chan, b, dl);
    case 5: return neco_chan_tryrecv(o->chan, b);
    case 6: return neco_chan_close(o->chan);
    case 7: return neco_chan_retain(o->chan);
    case 8: return neco_chan_release(o->chan);
    case 9: return neco_chan_select(1, o->chan);
    case 10: return neco_chan_select_dl(dl, 2, o->chan, o->chan);
    case 11: return neco_chan_selectv(2, cs);
    case 12: return o->ownchan ? neco_chan_selectv_dl(3, mix, dl) : neco_chan_selectv_dl(1, cs, dl);
    case 13: return neco_chan_tryselect(1, o->chan);
    case 14: return neco_chan_tryselectv(2, cs);
    case 15: return neco_chan_case(o->chan, b);
    case 16: return neco_gen_next(g, b);
    case 17: return neco_gen_next_dl(g, b, dl);
    case 18: return neco_gen_close(g);
    case 19: return neco_gen_retain(g);
    case 20: return neco_gen_release(g);
    case 21: return neco_mutex_lock(o->mu);
    case 22: return neco_mutex_lock_dl(o->mu, dl);
    case 23: return neco_mutex_trylock(o->mu);
    case 24: return neco_mutex_rdlock(o->mu);
    case 25: return neco_mutex_rdlock_dl(o->mu, dl);
    case 26: return neco_mutex_tryrdlock(o->mu);
    case 27: return neco_mutex_unlock(o->mu);
    case 28: return neco_waitgroup_add(o->wg, 1);
    case 29: return neco_waitgroup_done(o->wg);
    case 30: return neco_waitgroup_wait(o->wg);
    case 31: return neco_waitgroup_wait_dl(o->wg, dl);
    case 32: return neco_cond_signal(o->cv);
    case 33: return neco_cond_broadcast(o->cv);
    case 34: return neco_cond_wait(o->cv, o->ownmu ? o->ownmu : o->mu);
    case 35: return neco_cond_wait_dl(o->cv, o->mu, dl);
    case 36: return sys(neco_stream_read(o->st, b, 1));
    case 37: return sys(neco_stream_write(o->st, b, 1));
    case 38: return neco_stream_flush(o->st);
    case 39: return neco_stream_read_byte(o->st);
    case 40: return neco_stream_unread_byte(o->st);
    case 41: return neco_stream_close(o->st);
    case 42: return o->ownchan ? neco_chan_tryselectv(3, mix) : neco_chan_tryselectv(1, cs);
    case 43: return o->owncv && o->ownmu ? neco_cond_wait_dl(o->owncv, o->mu, dl)
                  : neco_cond_wait(o->cv, o->mu);
    // outside of a coroutine
    case 44: return neco_yield();
    case 45: return neco_sleep(1000);
    case 46: return neco_sleep_dl(dl);
    case 47: return neco_join(1);
    case 48: return neco_join_dl(1, dl);
    case 49: return neco_suspend();
    case 50: return neco_suspend_dl(dl);
    case 51: return neco_resume(1);
    case 52: return neco_getid();
    case 53: return neco_lastid();
    case 54: return neco_starterid();
    case 55: { neco_chan *c = NULL; return neco_chan_make(&c, 4, 1); }
    case 56: return neco_gen_yield(b);
    case 57: return neco_gen_yield_dl(b, dl);
    case 58: { neco_gen *c = NULL; return neco_gen_start(&c, 4, nothing, 0); }
    case 59: { neco_gen *c = NULL; return neco_gen_startv(&c, 4, nothing, 0, NULL); }
    case 60: return neco_mutex_init(o->mu);
    case 61: return neco_mutex_destroy(o->mu);
    case 62: return neco_waitgroup_init(o->wg);
    case 63: return neco_waitgroup_destroy(o->wg);
    case 64: return neco_cond_init(o->cv);
    case 65: return neco_cond_destroy(o->cv);
    case 66: return sys(neco_read(0, b, 1));
    case 67: return sys(neco_read_dl(0, b, 1, dl));
    case 68: return sys(neco_write(1, b, 0));
    case 69: return sys(neco_write_dl(1, b, 0, dl));
    case 70: return sys(neco_accept(0, NULL, NULL));
    case 71: return sys(neco_accept_dl(0, NULL, NULL, dl));
    case 72: { struct sockaddr a = { 0 }; return sys(neco_connect(0, &a, sizeof(a))); }
    case 73: { struct sockaddr a = { 0 }; return sys(neco_connect_dl(0, &a, sizeof(a), dl)); }
    case 74: { struct addrinfo *r = NULL; int e = neco_getaddrinfo("127.0.0.1", "80", NULL, &r);
        return e == EAI_SYSTEM && errno == EPERM && neco_lasterr() == NECO_PERM ? NECO_PERM : -93; }
    case 75: return neco_wait(0, NECO_WAIT_READ);
    case 76: return neco_wait_dl(0, NECO_WAIT_WRITE, dl);
    case 77: return neco_serve("tcp", "127.0.0.1:0");
    case 78: return neco_serve_dl("unix", "/nonexistent/x", dl);
    case 79: return neco_dial("tcp", "127.0.0.1:1");
    case 80: return neco_dial_dl("unix", "/nonexistent/x", dl);
    case 81: return neco_cancel(1);
    case 82: return neco_cancel_dl(1, dl);
    case 83: return neco_setcanceltype(NECO_CANCEL_ASYNC, NULL);
    case 84: return neco_setcancelstate(NECO_CANCEL_ENABLE, NULL);
    case 85: return neco_signal_watch(10);
    case 86: return neco_signal_wait_dl(dl);
    case 87: return neco_signal_unwatch(10);
    case 88: { int x = 0; int r = neco_work(-1, nowork, &x); return x ? -92 : r; }
    case 89: { neco_stats st; return neco_getstats(&st); }
    case 90: return neco_is_main_thread();
    case 91: { neco_stream *s = NULL; int r = neco_stream_make_buffered(&s, 0); return s ? -91 : r; }
    case 92: return neco_rand(b, 4, NECO_CSPRNG);
    case 93: return neco_rand(b, 4, NECO_PRNG);
    case 94: { int64_t old = 5; int r = neco_rand_setseed(7, &old); return old != 5 ? -89 : r; }
    case 95: return neco_is_main_thread();
    case 96: { neco_stream *s = NULL; int r = neco_stream_make(&s, 0); return s ? -91 : r; }
    // on objects of another runtime
    case 97: return sys(neco_stream_readfull(o->st, b, 1));
    case 98: return sys(neco_stream_readfull_dl(o->st, b, 1, dl));
    case 99: return neco_stream_buffered_read_size(o->st);
    case 100: return neco_stream_buffered_write_size(o->st);
    case 101: return neco_stream_flush_dl(o->st, dl);
    case 102: return neco_stream_read_byte_dl(o->st, dl);
    case 103: return neco_stream_close_dl(o->st, dl);
    case 104: return sys(neco_stream_write_dl(o->st, b, 1, dl));
    case 105: return sys(neco_stream_read_dl(o->st, b, 1, dl));
    }
    return -90;
}
