From 1ece7b61d94e6d454a8c57c3badd8ed21260e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:13 +0000
Subject: [PATCH 01/33] fix: do not let a new coroutine inherit a pending
 cancel, lastid or signal watches from a pooled one

---
 neco.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/neco.c b/neco.c
index 47dc2fe..ecad340 100644
--- a/neco.c
+++ b/neco.c
@@ -3855,6 +3855,11 @@ static int start(void(*coroutine)(int, void**), int argc, va_list *args,
     co->coroutine = coroutine;
     co->canceltype = env_canceltype;
     co->cancelstate = env_cancelstate;
+    // A pooled coroutine must not inherit the state of its previous life.
+    co->canceled = false;
+    co->deadlined = false;
+    co->lastid = 0;
+    co->cleanup = NULL;
 
     if (gen) {
         co->gen = chan_fastmake(gen_data_size, 0, true);
@@ -7726,6 +7731,14 @@ static void coexit(bool async) {
     // Delete from map 
     comap_delete(&rt->all, co);
 
+    // Stop watching signals
+    for (int signo = 1; co->sigwatch && signo < 32; signo++) {
+        if (co->sigwatch & (UINT32_C(1) << signo)) {
+            co->sigwatch &= ~(UINT32_C(1) << signo);
+            rt->sigwatchers[signo]--;
+        }
+    }
+
     // Notify all cancel waiters (if any)
     bool sched = false;
     struct coroutine *cowaiter = colist_pop_front(&co->cancellist);
-- 
2.43.0


From da0a6ea44d66db07157dd7b96398c7a9ecabfde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:35 +0000
Subject: [PATCH 02/33] fix: an exiting coroutine with a pending async cancel
 must not exit twice

---
 neco.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neco.c b/neco.c
index ecad340..c825180 100644
--- a/neco.c
+++ b/neco.c
@@ -7721,6 +7721,11 @@ static void coexit(bool async) {
     // The current coroutine _must_ exit.
     struct coroutine *co = coself();
 
+    // A pending cancelation is satisfied by this exit. The flag must be reset
+    // or else a coyield() from a cleanup routine, or from one of the steps
+    // below, would cause the coroutine to exit a second time.
+    co->canceled = false;
+
     if (async) {
         // Run the cleanup stack
         while (co->cleanup) {
-- 
2.43.0


From 0290a41e76ff8d7d0d1482e5a89d652c358c043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:57 +0000
Subject: [PATCH 03/33] fix: wake coroutines on epoll hangup/error and rearm
 oneshot events for the other event kind

---
 neco.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index c825180..d9ab70e 100644
--- a/neco.c
+++ b/neco.c
@@ -4080,6 +4080,14 @@ static void rt_sched_signal_step(void) {
 
 #define NEVENTS 16
 
+#if defined(NECO_POLL_EPOLL)
+static void wait_dl_rearm(int fd, uint32_t events) {
+    struct epoll_event ev = { .events = events | EPOLLONESHOT };
+    ev.data.fd = fd;
+    epoll_ctl(rt->qfd, EPOLL_CTL_MOD, fd, &ev);
+}
+#endif
+
 static void rt_sched_event_step(int64_t timeout) {
     (void)timeout;
 #if defined(NECO_POLL_EPOLL) 
@@ -4104,8 +4112,18 @@ static void rt_sched_event_step(int64_t timeout) {
     for (int i = 0; i < nevents; i++) {
 #if defined(NECO_POLL_EPOLL)
         int fd = evs[i].data.fd;
-        bool read = evs[i].events & EPOLLIN;
-        bool write = evs[i].events & EPOLLOUT;
+        // A hangup or error is always reported by epoll, perhaps without any
+        // other event. Both the readers and writers must be notified.
+        uint32_t hup = EPOLLHUP | EPOLLERR;
+        bool read = evs[i].events & (EPOLLIN | hup);
+        bool write = evs[i].events & (EPOLLOUT | hup);
+        // The event is oneshot, thus the file descriptor is now disarmed.
+        // Rearm it when there are coroutines waiting on the other event kind.
+        if (!read && evexists(fd, EVREAD)) {
+            wait_dl_rearm(fd, EPOLLIN);
+        } else if (!write && evexists(fd, EVWRITE)) {
+            wait_dl_rearm(fd, EPOLLOUT);
+        }
 #elif defined(NECO_POLL_KQUEUE)
         int fd = (int)evs[i].ident;
         bool read = evs[i].filter == EVFILT_READ;
-- 
2.43.0


From 63ba3af24e6bf923a6f72ecb7cf67b2cb250fc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:19 +0000
Subject: [PATCH 04/33] fix: a coroutine waiting on a background worker must
 not be resumed before the work is done

---
 neco.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index d9ab70e..bf2e812 100644
--- a/neco.c
+++ b/neco.c
@@ -5042,6 +5042,24 @@ static void cowait(int fd, enum evkind kind, int64_t deadline) {
     } 
 }
 
+#ifndef NECO_NOWORKERS
+// iopause pauses the current coroutine until its background work is done.
+// The worker thread is using memory that belongs to the coroutine. Therefore
+// the coroutine must go back to being paused when it was resumed for some
+// other reason, such as by neco_cancel().
+static void iopause(bool *done) {
+    struct coroutine *co = coself();
+    pthread_mutex_lock(&rt->iomu);
+    while (!*done) {
+        pthread_mutex_unlock(&rt->iomu);
+        sco_pause();
+        pthread_mutex_lock(&rt->iomu);
+    }
+    remove_from_list(co);
+    pthread_mutex_unlock(&rt->iomu);
+}
+#endif
+
 ////////////////////////////////////////////////////////////////////////////////
 // Networking code
 ////////////////////////////////////////////////////////////////////////////////
@@ -5056,6 +5074,7 @@ struct ioread {
     ssize_t res;
     struct runtime *rt;
     struct coroutine *co;
+    bool done;
 } aligned16;
 
 static void ioread(void *udata) {
@@ -5065,6 +5084,7 @@ static void ioread(void *udata) {
         info->res = -errno;
     }
     pthread_mutex_lock(&info->rt->iomu);
+    info->done = true;
     colist_push_back(&info->rt->iolist, info->co);
     pthread_mutex_unlock(&info->rt->iomu);
 }
@@ -5093,7 +5113,7 @@ static ssize_t read1(int fd, void *data, size_t nbytes) {
         int64_t pin = co->id % NECO_MAXIOWORKERS;
         if (worker_submit(rt->worker, pin, ioread, &info)) {
             rt->niowaiters++;
-            sco_pause();
+            iopause(&info.done);
             rt->niowaiters--;
             n = info.res;
             if (n < 0) {
@@ -5218,6 +5238,7 @@ struct iowrite {
     ssize_t res;
     struct runtime *rt;
     struct coroutine *co;
+    bool done;
 } aligned16;
 
 static void iowrite(void *udata) {
@@ -5227,6 +5248,7 @@ static void iowrite(void *udata) {
         info->res = -errno;
     }
     pthread_mutex_lock(&info->rt->iomu);
+    info->done = true;
     colist_push_back(&info->rt->iolist, info->co);
     pthread_mutex_unlock(&info->rt->iomu);
 }
@@ -5255,7 +5277,7 @@ static ssize_t write3(int fd, const void *data, size_t nbytes) {
         int64_t pin = co->id % NECO_MAXIOWORKERS;
         if (worker_submit(rt->worker, pin, iowrite, &info)) {
             rt->niowaiters++;
-            sco_pause();
+            iopause(&info.done);
             rt->niowaiters--;
             n = info.res;
             if (n < 0) {
@@ -8737,12 +8759,14 @@ struct iowork {
     void *udata;
     struct coroutine *co;
     struct runtime *rt;
+    bool done;
 };
 
 static void iowork(void *udata) {
     struct iowork *info = udata;
     info->work(info->udata);
     pthread_mutex_lock(&info->rt->iomu);
+    info->done = true;
     colist_push_back(&info->rt->iolist, info->co);
     pthread_mutex_unlock(&info->rt->iomu);
 }
@@ -8767,7 +8791,7 @@ static int workfn(int64_t pin, void(*work)(void *udata), void *udata) {
     while (!worker_submit(rt->worker, pin, iowork, &info)) {
         sco_yield();
     }
-    sco_pause();
+    iopause(&info.done);
     rt->niowaiters--;
 #endif
     return NECO_OK;
-- 
2.43.0


From 35a8c7afdd9c8e3f78fc531739bff3d0016a9827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:41 +0000
Subject: [PATCH 05/33] fix: a queued signal that nobody waits on must not hold
 back other signals

---
 neco.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neco.c b/neco.c
index bf2e812..4c08441 100644
--- a/neco.c
+++ b/neco.c
@@ -4056,6 +4056,7 @@ static void rt_sched_signal_step(void) {
                 sigexitnow(signo);
             }
         } else {
+            bool delivered = false;
             struct coroutine *co = rt->sigwaiters.head.next;
             while (co != (struct coroutine*)&rt->sigwaiters.tail) {
                 struct coroutine *next = co->next;
@@ -4070,9 +4071,15 @@ static void rt_sched_signal_step(void) {
                     }
                     sco_resume(co->id);
                     next = (struct coroutine*)&rt->sigwaiters.tail;
+                    delivered = true;
                 }
                 co = next;
             }
+            if (!delivered) {
+                // Nobody is currently waiting on this signal. Leave it in the
+                // queue and continue on to the other signals.
+                continue;
+            }
         }
         break;
     }
-- 
2.43.0


From ced090da501d06204e5b79e5caa4c2b839287250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:03 +0000
Subject: [PATCH 06/33] fix: enabling cancelation must wake up the coroutines
 blocked in neco_cancel

---
 neco.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index 4c08441..c5a3b4a 100644
--- a/neco.c
+++ b/neco.c
@@ -3354,7 +3354,6 @@ struct coroutine {
     int cancelstate;              // cancelation state
     bool canceled;                // coroutine operation was cancelled
     struct colist cancellist;     // waiting coroutines
-    int ncancellist;              // number of waiting coroutines
 
     struct colist joinlist;       // waiting coroutines
     int njoinlist;                // number of waiting coroutines
@@ -4693,10 +4692,8 @@ static int cancel_dl(int64_t id, int64_t deadline) {
         // Target coroutine is blocking their cancel state.
         // Wait for it to be released.
         colist_push_back(&cotarg->cancellist, co);
-        cotarg->ncancellist++;
         copause(deadline);
         remove_from_list(co);
-        cotarg->ncancellist--;
     }
 }
 
@@ -7718,6 +7715,14 @@ static int setcancelstate(int state, int *oldstate) {
         *oldstate = co->cancelstate;
     }
     co->cancelstate = state;
+    if (state == NECO_CANCEL_ENABLE) {
+        // Allow for the blocked cancelers to try again.
+        struct coroutine *cowaiter = colist_pop_front(&co->cancellist);
+        while (cowaiter) {
+            sched_resume(cowaiter);
+            cowaiter = colist_pop_front(&co->cancellist);
+        }
+    }
     return NECO_OK;
 }
 
-- 
2.43.0


From f6c4369e73bd4f41d72a65176f54b28e56ccee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:25 +0000
Subject: [PATCH 07/33] fix: receiving from a closed channel must not block
 after its last sender gave up

---
 neco.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index c5a3b4a..0b972af 100644
--- a/neco.c
+++ b/neco.c
@@ -6111,6 +6111,14 @@ int neco_chan_broadcast(struct neco_chan *chan, void *data) {
     return ret;
 }
 
+// Returns true if the channel is closed and there are no more messages left to
+// receive. This includes when the last of the blocked senders has given up on
+// sending, due to a cancel or deadline, after the channel was closed.
+static bool chan_isrclosed(struct neco_chan *chan) {
+    return chan->rclosed || (chan->sclosed && chan->buflen == 0 && 
+        colist_is_empty(&chan->queue));
+}
+
 static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
     int64_t deadline)
 {
@@ -6118,7 +6126,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
         return NECO_INVAL;
     } else if (!rt || chan->rtid != rt->id) {
         return NECO_PERM;
-    } else if (chan->rclosed) {
+    } else if (chan_isrclosed(chan)) {
         return NECO_CLOSED;
     }
     struct coroutine *co = coself();
@@ -6319,7 +6327,7 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
     for (int i = 0; i < ncases; i++) {
         struct neco_chan *chan = cases[i].chan;
         if ((!colist_is_empty(&chan->queue) && !chan->qrecv) || 
-            chan->buflen > 0 || chan->rclosed)
+            chan->buflen > 0 || chan_isrclosed(chan))
         {
             int ret = neco_chan_recv(cases[i].chan, cases[i].data);
             *cases[i].ok = ret == NECO_OK;
-- 
2.43.0


From b35f54db12e05e21b39fdc89062b82595f11539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:47 +0000
Subject: [PATCH 08/33] fix: neco_stream_read_byte must not swallow a pending
 cancel

---
 neco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 0b972af..69d18f0 100644
--- a/neco.c
+++ b/neco.c
@@ -8209,7 +8209,7 @@ ssize_t neco_stream_buffered_read_size(neco_stream *stream) {
 int neco_stream_read_byte_dl(neco_stream *stream, int64_t deadline) {
     unsigned char byte;
     if (rt && stream && stream->rtid == rt->id && stream->buffered && 
-        stream->rd.len > 0 && checkdl(coself(), deadline) == NECO_OK)
+        stream->rd.len > 0)
     {
         // fast-track read byte
         byte = (unsigned char)stream->rd.data[stream->rd.pos];
-- 
2.43.0


From b1fcd907251b00bf5c10222bc1541219a7c1557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:09 +0000
Subject: [PATCH 09/33] fix: neco_write must report the bytes already written
 on a timeout or cancel

---
 neco.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 69d18f0..fe5b8ae 100644
--- a/neco.c
+++ b/neco.c
@@ -5312,8 +5312,13 @@ static ssize_t write_dl(int fd, const void *data, size_t nbytes,
     while (1) {
         int ret = checkdl(co, deadline);
         if (ret != NECO_OK) {
+            if (written > 0 && ret == NECO_CANCELED) {
+                // The caller is notified about the partial write instead of
+                // the cancelation. Leave it pending for the next operation.
+                co->canceled = true;
+            }
             errno = ret == NECO_CANCELED ? ECANCELED : ETIMEDOUT;
-            return -1;
+            return written > 0 ? written : -1;
         }
         // size_t maxnbytes = CLAMP(nbytes, 0, 8096);
         // ssize_t n = write2(fd, data, maxnbytes);
-- 
2.43.0


From f57b56c7ae7ea75a007e864f9486c6f87f803604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:31 +0000
Subject: [PATCH 10/33] fix: a delivered message, lock, or signal must not be
 lost to a simultaneous cancel or deadline

---
 neco.c | 55 ++++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/neco.c b/neco.c
index fe5b8ae..540e7f2 100644
--- a/neco.c
+++ b/neco.c
@@ -3336,6 +3336,7 @@ struct coroutine {
     int64_t starterid;            // identifer of the starter coroutine
     bool paused;                  // coroutine is paused
     bool deadlined;               // coroutine operation was deadlined
+    bool completed;               // paused operation was completed
 
     struct cleanup *cleanup;      // cancelation cleanup stack
 
@@ -3658,6 +3659,14 @@ static void coyield(void) {
     }
 }
 
+// Mark the operation that a paused coroutine is waiting on as being completed,
+// such as when a message was delivered to it or a lock was handed to it.
+// From here on a cancel or deadline cannot undo the operation, even if one of
+// those happens before the coroutine gets to run again.
+static void complete(struct coroutine *co) {
+    co->completed = true;
+}
+
 // Schedule a coroutine to resume at the next pause phase.
 // It's expected that the coroutine is currently paused.
 // The difference between sched_resume(co) and sco_resume(co->id) is that with
@@ -4064,6 +4073,7 @@ static void rt_sched_signal_step(void) {
                     // Assign the signal to its sigmask and resume
                     // the coroutine.
                     co->sigmask = (uint32_t)signo;
+                    complete(co);
                     rt->sigqueue[signo]--;
                     if (rt->sigqueue[signo] == 0) {
                         rt->sigmask &= ~(UINT32_C(1) << signo);
@@ -4518,6 +4528,7 @@ static struct coroutine *cofind(int64_t id) {
 // pause the currently running coroutine with the provided deadline.
 static void copause(int64_t deadline) {
     struct coroutine *co = coself();
+    co->completed = false;
     // Cannot pause an already canceled or deadlined coroutine.
     if (!co->canceled && !co->deadlined) {
         co->deadline = deadline;
@@ -4644,6 +4655,19 @@ static int checkdl(struct coroutine *co, int64_t deadline) {
     return canceled ? NECO_CANCELED : deadlined ? NECO_TIMEDOUT : NECO_OK;
 }
 
+// checkpause is like checkdl but is used just after a copause(). 
+// When the paused operation was completed by another coroutine then that takes
+// priority over a deadline or cancel. In which case the deadline is forgotten
+// and the cancel stays pending for the next operation.
+static int checkpause(struct coroutine *co) {
+    if (co->completed) {
+        co->completed = false;
+        co->deadlined = false;
+        return NECO_OK;
+    }
+    return checkdl(co, INT64_MAX);
+}
+
 /// Get the identifier for the coroutine that started the current coroutine.
 ///
 /// ```
@@ -4675,6 +4699,8 @@ static int cancel_dl(int64_t id, int64_t deadline) {
     while (1) {
         cotarg = cofind(id);
         if (!cotarg) {
+            // The deadline may have been reached while waiting.
+            co->deadlined = false;
             return NECO_NOTFOUND;
         }
         int ret = checkdl(co, deadline);
@@ -4812,7 +4838,7 @@ static int signal_wait_dl(int64_t deadline) {
     rt->nsigwaiters--;
     int signo = (int)co->sigmask;
     co->sigmask = 0;
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkpause(co);
     return ret == NECO_OK ? signo : ret;
 }
 
@@ -6039,6 +6065,7 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
             recv->cmsg = cocase->data;
             *cocase->ok = true;
         }
+        complete(recv);
         // Directly copy the message to the receiver's 'data' argument.
         if (chan->msgsize > 0) {
             memcpy(recv->cmsg, data, (size_t)chan->msgsize);
@@ -6077,7 +6104,7 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
     remove_from_list(co);
 
     co->cmsg = NULL;
-    return checkdl(co, INT64_MAX);
+    return checkpause(co);
 }
 
 /// Same as neco_chan_send() but with a deadline parameter.
@@ -6148,6 +6175,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
             // Put the sender's message in the buffer and wake it up.
             send = colist_pop_front(&chan->queue);
             cbuf_push(chan, send->cmsg);
+            complete(send);
         }
         if (chan->sclosed && colist_is_empty(&chan->queue) && 
             chan->buflen == 0)
@@ -6169,6 +6197,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
         if (chan->msgsize) {
             memcpy(data, send->cmsg, (size_t)chan->msgsize);
         }
+        complete(send);
         if (chan->sclosed && colist_is_empty(&chan->queue) && 
             chan->buflen == 0)
         {
@@ -6197,7 +6226,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
     remove_from_list(co);
     // The sender has already copied its message to 'data'.
     co->cmsg = NULL;
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkpause(co);
     if (ret != NECO_OK) {
         return ret;
     }
@@ -6286,6 +6315,7 @@ static int chan_close(struct neco_chan *chan) {
             *cocase->ok = false;
         }
         recv->cclosed = true;
+        complete(recv);
         sched_resume(recv);
     }
     chan->rclosed = true;
@@ -6359,7 +6389,7 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
     for (int i = 0; i < ncases; i++) {
         remove_from_list((struct coroutine*)&cases[i]);
     }
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkpause(co);
     return ret == NECO_OK ? *ret_idx : ret;
 }
 
@@ -7254,7 +7284,7 @@ static int finish_lock(struct coroutine *co, struct neco_mutex *mu,
     rt->nlocked--;
     remove_from_list(co);
     co->rlocked = false;
-    return checkdl(co, INT64_MAX);
+    return checkpause(co);
 }
 
 static int mutex_lock_dl(struct coroutine *co, struct neco_mutex *mu,
@@ -7325,6 +7355,7 @@ static void mutex_fastunlock(struct neco_mutex *mu) {
     while (1) {
         struct coroutine *co = colist_pop_front(&mu->queue);
         // Schedule the coroutines to resume.
+        complete(co);
         sched_resume(co);
         if (co->rlocked) {
             // The popped coroutine was a reader.
@@ -7477,10 +7508,12 @@ static int waitgroup_done(neco_waitgroup *waitgroup) {
         struct coroutine *co = colist_pop_front(&wg->queue);
         if (colist_is_empty(&wg->queue)) {
             // Only one waiter. Do a quick switch.
+            complete(co);
             sco_resume(co->id);
         } else {
             // Many waiters. Batch them together.
             do {
+                complete(co);
                 sched_resume(co);
                 co = colist_pop_front(&wg->queue);  
             } while (co);
@@ -7519,7 +7552,7 @@ static int waitgroup_wait_dl(neco_waitgroup *waitgroup, int64_t deadline) {
     copause(deadline);
     rt->nwaitgroupers--;
     remove_from_list(co);
-    return checkdl(co, INT64_MAX);
+    return checkpause(co);
 }
 
 int neco_waitgroup_wait_dl(neco_waitgroup *waitgroup, int64_t deadline) {
@@ -7617,6 +7650,7 @@ static int cond_signal(neco_cond *cond) {
     }
     struct coroutine *co = colist_pop_front(&cvar->queue);
     if (co) {
+        complete(co);
         sco_resume(co->id);
     }
     return NECO_OK;
@@ -7636,6 +7670,7 @@ static int cond_broadcast(neco_cond *cond) {
     }
     struct coroutine *co = colist_pop_front(&cvar->queue);
     while (co) {
+        complete(co);
         sched_resume(co);
         co = colist_pop_front(&cvar->queue);
     }
@@ -7673,7 +7708,7 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
     copause(deadline);
     rt->ncondwaiters--;
     remove_from_list(co);
-    ret = checkdl(co, INT64_MAX);
+    ret = checkpause(co);
     // Must relock.
     while (mutex_fastlock(co, mu, INT64_MAX) != NECO_OK) { }
     return ret;
@@ -7821,6 +7856,7 @@ static void coexit(bool async) {
     // Notify all join waiters (if any)
     cowaiter = colist_pop_front(&co->joinlist);
     while (cowaiter) {
+        complete(cowaiter);
         sched_resume(cowaiter);
         sched = true;
         cowaiter = colist_pop_front(&co->joinlist);
@@ -7953,7 +7989,7 @@ static int join_dl(int64_t id, int64_t deadline) {
     copause(deadline);
     remove_from_list(co);
     cotarg->njoinlist--;
-    return checkdl(co, INT64_MAX);
+    return checkpause(co);
 }
 
 /// Same as neco_join() but with a deadline parameter. 
@@ -8731,7 +8767,7 @@ static int suspend_dl(int64_t deadline) {
     rt->nsuspended--;
     co->suspended = false;
 
-    return checkdl(co, INT64_MAX);
+    return checkpause(co);
 }
 
 /// Same as neco_suspend() but with a deadline parameter. 
@@ -8762,6 +8798,7 @@ static int resume(int64_t id) {
     if (!co->suspended) {
         return NECO_NOTSUSPENDED;
     }
+    complete(co);
     sco_resume(co->id);
     return NECO_OK;
 }
-- 
2.43.0


From 92a51d007d68c667038b265df5940bb1f5999df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:53 +0000
Subject: [PATCH 11/33] fix: neco_cond_wait must release the mutex and wait
 atomically, and always relock

---
 neco.c | 51 +++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/neco.c b/neco.c
index 540e7f2..6169263 100644
--- a/neco.c
+++ b/neco.c
@@ -7334,22 +7334,24 @@ int neco_mutex_rdlock(neco_mutex *mutex) {
     return neco_mutex_rdlock_dl(mutex, INT64_MAX);
 }
 
-static void mutex_fastunlock(struct neco_mutex *mu) {
+// mutex_release unlocks the mutex without yielding to other coroutines. 
+// Returns true if the lock was handed to one or more waiting coroutines.
+static bool mutex_release(struct neco_mutex *mu) {
     if (!mu->locked) {
-        return;
+        return false;
     }
     if (mu->rlocked > 0) {
         // This lock is currently being used by a reader.
         mu->rlocked--;
         if (mu->rlocked > 0) {
             // There are still more readers using this lock.
-            return;
+            return false;
         }
     }
     if (colist_is_empty(&mu->queue)) {
         // There are no more coroutines in the queue.
         mu->locked = false;
-        return;
+        return false;
     }
     // Choose next coroutine to take the lock.
     while (1) {
@@ -7368,7 +7370,13 @@ static void mutex_fastunlock(struct neco_mutex *mu) {
         }
         break;
     }
-    yield_for_sched_resume();
+    return true;
+}
+
+static void mutex_fastunlock(struct neco_mutex *mu) {
+    if (mutex_release(mu)) {
+        yield_for_sched_resume();
+    }
 }
 
 static int mutex_unlock(neco_mutex *mutex) {
@@ -7389,6 +7397,32 @@ int neco_mutex_unlock(neco_mutex *mutex) {
     return ret;
 }
 
+// mutex_relock acquires the lock again for a cond wait operation. 
+// This always succeeds and keeps its place in the queue, even if the coroutine
+// is canceled while waiting for the lock. In that case the cancel will still
+// be pending when this function returns.
+static void mutex_relock(struct coroutine *co, struct neco_mutex *mu) {
+    if (!mu->locked) {
+        mu->locked = true;
+        return;
+    }
+    bool canceled = co->canceled;
+    co->canceled = false;
+    co->rlocked = false;
+    colist_push_back(&mu->queue, co);
+    rt->nlocked++;
+    do {
+        copause(INT64_MAX);
+        canceled |= co->canceled;
+        co->canceled = false;
+    } while (!co->completed);
+    rt->nlocked--;
+    remove_from_list(co);
+    co->completed = false;
+    co->canceled = canceled;
+}
+
+#ifdef NECO_TESTING
 inline
 static int mutex_fastlock(struct coroutine *co, struct neco_mutex *mu,
     int64_t deadline)
@@ -7402,7 +7436,6 @@ static int mutex_fastlock(struct coroutine *co, struct neco_mutex *mu,
     return ret;
 }
 
-#ifdef NECO_TESTING
 // An optimistic lock routine for testing only
 int neco_mutex_fastlock(neco_mutex *mutex, int64_t deadline) {
     struct coroutine *co = coself();
@@ -7700,7 +7733,9 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
         co->canceled = false;
         return NECO_CANCELED;
     }
-    mutex_fastunlock(mu);
+    // Unlocking the mutex and waiting on the condition must be atomic with 
+    // respect to the other coroutines, or else a signal may be lost. 
+    mutex_release(mu);
     // The coroutine was added to the deadliner queue. We can safely
     // yield and wait to be woken at some point in the future.
     colist_push_back(&cvar->queue, co);
@@ -7710,7 +7745,7 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
     remove_from_list(co);
     ret = checkpause(co);
     // Must relock.
-    while (mutex_fastlock(co, mu, INT64_MAX) != NECO_OK) { }
+    mutex_relock(co, mu);
     return ret;
 }
 
-- 
2.43.0


From 585a8941149f102cbe8b086780a76d2c30a4d48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:15 +0000
Subject: [PATCH 12/33] fix: coroutines selecting on the same channel must not
 overwrite each others message

---
 neco.c | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index 6169263..e85ea78 100644
--- a/neco.c
+++ b/neco.c
@@ -6420,6 +6420,13 @@ static int chan_selectv_dl(int ncases, va_list *args, struct neco_chan **chans,
     struct coroutine *co = coself();
     int ret_idx = -1;
 
+    // The message is first received into memory that belongs to this operation
+    // because other coroutines may be selecting from the same channels.
+    bool ok = false;
+    size_t maxmsgsize = 0;
+    char stack_msg[64];
+    char *msg = stack_msg;
+
     // Copy the select-case arguments into the array.
     for (int i = 0; i < ncases; i++) {
         struct neco_chan *chan;
@@ -6430,13 +6437,38 @@ static int chan_selectv_dl(int ncases, va_list *args, struct neco_chan **chans,
             .idx = i,
             .ret_idx = &ret_idx,
             .co = co,
-            .data = chan ? cbufslot(chan, chan->bufcap) : 0,
-            .ok = chan ? &chan->lok : 0,
+            .ok = &ok,
         };
         cases[i].next = (struct coroutine*)&cases[i];
         cases[i].prev = (struct coroutine*)&cases[i];
+        if (chan && (size_t)chan->msgsize > maxmsgsize) {
+            maxmsgsize = (size_t)chan->msgsize;
+        }
+    }
+    int ret = NECO_OK;
+    if (maxmsgsize > sizeof(stack_msg)) {
+        msg = malloc0(maxmsgsize);
+        if (!msg) {
+            ret = NECO_NOMEM;
+        }
+    }
+    if (ret == NECO_OK) {
+        for (int i = 0; i < ncases; i++) {
+            cases[i].data = msg;
+        }
+        ret = chan_select(ncases, cases, &ret_idx, deadline, try);
+    }
+    if (ret >= 0) {
+        // Move the result to the channel for the following neco_chan_case().
+        struct neco_chan *chan = cases[ret].chan;
+        chan->lok = ok;
+        if (ok && chan->msgsize > 0) {
+            memcpy(cbufslot(chan, chan->bufcap), msg, (size_t)chan->msgsize);
+        }
+    }
+    if (msg != stack_msg) {
+        free0(msg);
     }
-    int ret = chan_select(ncases, cases, &ret_idx, deadline, try);
     if (must_free) {
         free0(cases);
     }
-- 
2.43.0


From 2f478aed51f07b1026b54581719200baa5ccdd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:35 +0000
Subject: [PATCH 13/33] fix: wake the waitgroup waiters when neco_waitgroup_add
 brings the counter to zero

---
 neco.c | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/neco.c b/neco.c
index e85ea78..a798b95 100644
--- a/neco.c
+++ b/neco.c
@@ -7538,6 +7538,26 @@ int neco_waitgroup_init(neco_waitgroup *waitgroup) {
     return ret;
 }
 
+// Wake up all waiters if the counter has reached zero.
+static void waitgroup_notify(struct neco_waitgroup *wg) {
+    if (wg->count == 0 && !colist_is_empty(&wg->queue)) {
+        struct coroutine *co = colist_pop_front(&wg->queue);
+        if (colist_is_empty(&wg->queue)) {
+            // Only one waiter. Do a quick switch.
+            complete(co);
+            sco_resume(co->id);
+        } else {
+            // Many waiters. Batch them together.
+            do {
+                complete(co);
+                sched_resume(co);
+                co = colist_pop_front(&wg->queue);  
+            } while (co);
+            yield_for_sched_resume();
+        }
+    }
+}
+
 static int waitgroup_add(neco_waitgroup *waitgroup, int delta) {
     struct neco_waitgroup *wg = (void*)waitgroup;
     int ret = check_waitgroup(wg);
@@ -7549,6 +7569,7 @@ static int waitgroup_add(neco_waitgroup *waitgroup, int delta) {
         return NECO_NEGWAITGRP;
     }
     wg->count = waiters;
+    waitgroup_notify(wg);
     return NECO_OK;
 }
 
@@ -7569,22 +7590,7 @@ static int waitgroup_done(neco_waitgroup *waitgroup) {
         return NECO_NEGWAITGRP;
     }
     wg->count--;
-    if (wg->count == 0 && !colist_is_empty(&wg->queue)) {
-        struct coroutine *co = colist_pop_front(&wg->queue);
-        if (colist_is_empty(&wg->queue)) {
-            // Only one waiter. Do a quick switch.
-            complete(co);
-            sco_resume(co->id);
-        } else {
-            // Many waiters. Batch them together.
-            do {
-                complete(co);
-                sched_resume(co);
-                co = colist_pop_front(&wg->queue);  
-            } while (co);
-            yield_for_sched_resume();
-        }
-    }
+    waitgroup_notify(wg);
     return NECO_OK;
 }
 
-- 
2.43.0


From 3ce22559ed941cfeb1067f3ba31acc439f3307cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:57 +0000
Subject: [PATCH 14/33] fix: mutex and generator operations must set
 neco_lasterr for invalid arguments too

---
 neco.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/neco.c b/neco.c
index a798b95..9631806 100644
--- a/neco.c
+++ b/neco.c
@@ -7286,6 +7286,7 @@ int neco_mutex_trylock(neco_mutex *mutex) {
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
     if (ret != NECO_OK) {
+        error_guard(ret);
         return ret;
     }
     ret = mutex_trylock(co, mu, true, 0);
@@ -7298,6 +7299,7 @@ int neco_mutex_tryrdlock(neco_mutex *mutex) {
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
     if (ret != NECO_OK) {
+        error_guard(ret);
         return ret;
     }
     ret = mutex_tryrdlock(co, mu, true, 0);
@@ -7335,6 +7337,7 @@ int neco_mutex_lock_dl(neco_mutex *mutex, int64_t deadline) {
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
     if (ret != NECO_OK) {
+        error_guard(ret);
         return ret;
     }
     ret = mutex_lock_dl(co, mu, deadline);
@@ -7351,6 +7354,7 @@ int neco_mutex_rdlock_dl(neco_mutex *mutex, int64_t deadline) {
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
     if (ret != NECO_OK) {
+        error_guard(ret);
         return ret;
     }
     ret = mutex_tryrdlock(co, mu, false, deadline);
@@ -8773,11 +8777,10 @@ int neco_gen_release(neco_gen *gen) {
 /// Same as neco_gen_yield() but with a deadline parameter.
 int neco_gen_yield_dl(void *data, int64_t deadline) {
     struct coroutine *co = coself();
-    if (!co) {
-        return NECO_PERM;
-    }
-    if (!co->gen) {
-        return NECO_NOTGENERATOR;
+    int ret = !co ? NECO_PERM : !co->gen ? NECO_NOTGENERATOR : NECO_OK;
+    if (ret != NECO_OK) {
+        error_guard(ret);
+        return ret;
     }
     return neco_chan_send_dl((void*)co->gen, data, deadline);
 }
-- 
2.43.0


From 559a501500399a5c77e1e36e3d0bc18ad81a78cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:50 +0000
Subject: [PATCH 15/33] fix: a coroutine woken by a cancel or deadline must
 leave the list of scheduled resumers

A coroutine that is woken up by a cancel or deadline may, before it gets to
run, also be put in the rt->resumers list by a close, broadcast, unlock, etc.
It then ran and left its operation while staying in that list, and the next
step of the scheduler woke up its next operation for no reason. For example, a
neco_suspend() returned NECO_OK without a neco_resume(), or a neco_sleep()
returned early.
---
 neco.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 9631806..536cb53 100644
--- a/neco.c
+++ b/neco.c
@@ -3337,6 +3337,7 @@ struct coroutine {
     bool paused;                  // coroutine is paused
     bool deadlined;               // coroutine operation was deadlined
     bool completed;               // paused operation was completed
+    bool resuming;                // coroutine is in the rt->resumers list
 
     struct cleanup *cleanup;      // cancelation cleanup stack
 
@@ -3675,7 +3676,10 @@ static void complete(struct coroutine *co) {
 // immediately yield the current coroutine to the provided coroutine.
 static void sched_resume(struct coroutine *co) {
     colist_push_back(&rt->resumers, co);
-    rt->nresumers++;
+    if (!co->resuming) {
+        co->resuming = true;
+        rt->nresumers++;
+    }
 }
 
 static void yield_for_sched_resume(void) {
@@ -4200,6 +4204,7 @@ static void rt_sched_paused_step(void) {
     // attention.
     struct coroutine *co = colist_pop_front(&rt->resumers);
     while (co) {
+        co->resuming = false;
         sco_resume(co->id);
         rt->nresumers--;
         co = colist_pop_front(&rt->resumers);
@@ -4539,6 +4544,14 @@ static void copause(int64_t deadline) {
         co->paused = true;
         sco_pause();
         co->paused = false;
+        if (co->resuming) {
+            // The coroutine was also scheduled to resume, but something else,
+            // such as a cancel or deadline, has already woken it. Forget about
+            // the other one or else it would wake up the next operation.
+            remove_from_list(co);
+            co->resuming = false;
+            rt->nresumers--;
+        }
         if (co->deadline < INT64_MAX) {
             dlqueue_delete(&rt->deadlines, co);
             rt->ndeadlines--;
-- 
2.43.0


From bc07486ff77fde60ce0816814c11f6db246150be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:38 +0000
Subject: [PATCH 16/33] fix: background work must not get stuck when its thread
 cannot be created

pthread_create() returns a positive error number on failure and not -1. The
failure went unnoticed, leaving the work in the queue of a thread that does not
exist, and neco_work() never returned.
---
 deps/worker.c | 5 ++++-
 neco.c        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/deps/worker.c b/deps/worker.c
index 1697a89..6f57bee 100644
--- a/deps/worker.c
+++ b/deps/worker.c
@@ -197,7 +197,10 @@ bool worker_submit(struct worker *worker, int64_t pin, void(*work)(void *udata),
         thread->len++;
         if (!thread->th) {
             int ret = pthread_create(&thread->th, 0, worker_entry, thread);
-            if (ret == -1) {
+            if (ret != 0) {
+                // There is no thread that could do the work. Take it back.
+                thread->th = 0;
+                thread->len--;
                 pthread_mutex_unlock(&thread->mu);
                 return false;
             }
diff --git a/neco.c b/neco.c
index 536cb53..732cf17 100644
--- a/neco.c
+++ b/neco.c
@@ -2820,7 +2820,10 @@ bool worker_submit(struct worker *worker, int64_t pin, void(*work)(void *udata),
         thread->len++;
         if (!thread->th) {
             int ret = pthread_create(&thread->th, 0, worker_entry, thread);
-            if (ret == -1) {
+            if (ret != 0) {
+                // There is no thread that could do the work. Take it back.
+                thread->th = 0;
+                thread->len--;
                 pthread_mutex_unlock(&thread->mu);
                 return false;
             }
-- 
2.43.0


From ee980ec160ee25233e16eeae3fd00a10df316097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:50 +0000
Subject: [PATCH 17/33] fix: a write to a broken pipe from a write worker
 crashed in the signal handler

---
 neco.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neco.c b/neco.c
index 732cf17..b8806d3 100644
--- a/neco.c
+++ b/neco.c
@@ -3977,6 +3977,14 @@ void neco_reset_sigcrashed(void) {
 static void sighandler(int signo, siginfo_t *info, void *ptr) {
     (void)info; (void)ptr;
     must(signo > 0 && signo < 32);
+    if (!rt) {
+        // This thread does not have a runtime, such as a background worker.
+        // A broken pipe is reported by the write operation that caused it.
+        if (signo != SIGPIPE) {
+            sigexitnow(signo);
+        }
+        return;
+    }
     if (rt->sigcrashed) {
         sigexitnow(rt->sigcrashed);
         return;
-- 
2.43.0


From 57bb0540e42e45bd4845a427350b1aa28188df88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:49 +0000
Subject: [PATCH 18/33] fix: keep a cancel pending when a stream reports a
 partial transfer instead

A stream read or write that is canceled part way returns the number of bytes
that were transferred, and the cancelation was lost: neither reported by this
call nor pending for the next one.
---
 neco.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/neco.c b/neco.c
index b8806d3..116eb5d 100644
--- a/neco.c
+++ b/neco.c
@@ -8307,6 +8307,10 @@ static ssize_t stream_readfull_dl(neco_stream *stream, void *data,
         if (n <= 0) {
             if (nread == 0) {
                 nread = n;
+            } else if (n < 0 && neco_lasterr() == NECO_CANCELED) {
+                // The caller is notified about the partial read instead of
+                // the cancelation. Leave it pending for the next operation.
+                coself()->canceled = true;
             }
             return nread;
         } else {
@@ -8454,6 +8458,11 @@ static ssize_t stream_write_dl(neco_stream *stream, const void *data,
             if (ret != NECO_OK) {
                 if (nwritten == 0) {
                     nwritten = ret;
+                } else if (ret == NECO_CANCELED) {
+                    // The caller is notified about the partial write instead
+                    // of the cancelation. Leave it pending for the next
+                    // operation.
+                    coself()->canceled = true;
                 }
                 break;
             }
-- 
2.43.0


From 9eda5232329063a7613b3ce4dd7a40744c28634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:42 +0000
Subject: [PATCH 19/33] fix: neco_serve silently truncated a too long unix
 socket path

The listener was bound to a different path than the one given. Report
NECO_INVAL as neco_dial does.
---
 neco.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index 116eb5d..5dab4d5 100644
--- a/neco.c
+++ b/neco.c
@@ -7146,13 +7146,16 @@ static int listen_unix_dl(const char *addr, int64_t deadline) {
 #ifdef _WIN32
     return NECO_PERM;
 #else
+    struct sockaddr_un unaddr;
+    memset(&unaddr, 0, sizeof(struct sockaddr_un));
+    unaddr.sun_family = AF_UNIX;
+    if (strlen(addr) > sizeof(unaddr.sun_path) - 1) {
+        return NECO_INVAL;
+    }
     int fd = socket0(AF_UNIX, SOCK_STREAM, 0);
     if (fd == -1) {
         return NECO_ERROR;
     }
-    struct sockaddr_un unaddr;
-    memset(&unaddr, 0, sizeof(struct sockaddr_un));
-    unaddr.sun_family = AF_UNIX;
     strncpy(unaddr.sun_path, addr, sizeof(unaddr.sun_path) - 1);
     if (bind0(fd, (void*)&unaddr, sizeof(struct sockaddr_un)) == -1) {
         close(fd);
-- 
2.43.0


From eb3811635b67a6dd373245bacb903adb09d0fb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:53 +0000
Subject: [PATCH 20/33] fix: neco_getaddrinfo lost errno and leaked the result
 of a canceled lookup

The result was taken before a yield. Other coroutines could change errno
before it was reported, and a coroutine that was asynchronously canceled
during the yield leaked the address list.
---
 neco.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 5dab4d5..79be7ef 100644
--- a/neco.c
+++ b/neco.c
@@ -6821,11 +6821,13 @@ static int getaddrinfo_dl(const char *node, const char *service,
     ret = EAI_SYSTEM;
     if (n != -1) {
         must(ready == 1 && n == sizeof(int));
+        // Take the result after yielding. The coroutine may be terminated
+        // while yielding, and other coroutines may change errno.
+        coyield();
         *res = args->res;
         args->res = NULL;
         ret = args->ret;
         errno = args->errnum;
-        coyield();
     }
     neco_cleanup_pop(1);
     return ret;
-- 
2.43.0


From 6c42cdd39c37bc44950adc339b269195da8c6d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:35 +0000
Subject: [PATCH 21/33] fix: a cancel of neco_dial was lost when the name has
 more addresses

When the cancel arrived while connecting to one address, neco_dial went on
with the next address and could even succeed. The cancel was consumed but
never reported.
---
 neco.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 79be7ef..aa7df87 100644
--- a/neco.c
+++ b/neco.c
@@ -7041,7 +7041,9 @@ static int dial_tcp_dl(const char *addr, int tcp_vers, int64_t deadline) {
     do {
         fd = dial_connect_dl(ai->ai_family, ai->ai_socktype, ai->ai_protocol, 
             ai->ai_addr, ai->ai_addrlen, deadline);
-        if (fd != -1) {
+        if (fd != -1 || errno == ECANCELED) {
+            // Connected or canceled. A cancel is for the whole operation, do
+            // not try the remaining addresses.
             break;
         }
         ai = ai->ai_next;
-- 
2.43.0


From 30895011df7c96095722908cb927b651ab1e9e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:21 +0000
Subject: [PATCH 22/33] fix: neco_pipe lost a pending cancel

The cancel was consumed by generating the random key, whose result was
ignored. Report it.
---
 neco.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index aa7df87..de447d0 100644
--- a/neco.c
+++ b/neco.c
@@ -8008,6 +8008,11 @@ static int _pipe_(int pipefd[2]) {
         errno = EPERM;
         return -1;
     }
+    if (checkdl(coself(), INT64_MAX) == NECO_CANCELED) {
+        // Canceled before this operation. From here it cannot be canceled.
+        errno = ECANCELED;
+        return -1;
+    }
     int oldstate = 0;
     neco_setcancelstate(NECO_CANCEL_DISABLE, &oldstate);
     int fd0 = -2;
@@ -8072,7 +8077,7 @@ static int _pipe_(int pipefd[2]) {
 /// socket. Also, the file descriptors are returned in non-blocking state.
 int neco_pipe(int pipefd[2]) {
     int ret = _pipe_(pipefd);
-    error_guard(ret);
+    async_error_guard(ret);
     return ret;
 }
 
-- 
2.43.0


From 61756dcb8c880b4fedca6fc8ec04c99e75ec7cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:24 +0000
Subject: [PATCH 23/33] fix: neco_pipe left its helper coroutine running after
 a failure

When the accept failed, neco_pipe returned while the helper coroutine was
still writing to its local variables, and the descriptor of the helper was
leaked. When the dial failed, it waited five seconds for a connection and
then reported a timeout. Also handle the descriptor number zero.
---
 neco.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/neco.c b/neco.c
index de447d0..1080ce7 100644
--- a/neco.c
+++ b/neco.c
@@ -7990,12 +7990,17 @@ static void coexit(bool async) {
 }
 
 static void co_pipe(int argc, void *argv[]) {
-    must(argc == 3);
+    must(argc == 4);
     char *path = argv[0];
     int64_t secret = *(int64_t*)argv[1];
     int *fd_out = argv[2];
+    int *errno_out = argv[3];
     int fd = neco_dial("unix", path);
-    neco_write(fd, &secret, 8);
+    if (fd < 0) {
+        *errno_out = errno;
+    } else {
+        neco_write(fd, &secret, 8);
+    }
     *fd_out = fd;
 }
 
@@ -8025,17 +8030,22 @@ static int _pipe_(int pipefd[2]) {
     char path[PATH_MAX];
     snprintf(path, sizeof(path), "/tmp/neco.%" PRIu64 ".sock", tmpkey);
     int ln = neco_serve("unix", path);
-    int64_t childid = 0;
-    if (ln > 0) {
+    if (ln >= 0) {
         // State a coroutine to connect to the listener.
-        int nret = neco_start(co_pipe, 3, path, &secret, &fd0);
+        int cerrno = 0;
+        int nret = neco_start(co_pipe, 4, path, &secret, &fd0, &cerrno);
         neco_errconv_to_sys(nret);
         if (nret == NECO_OK) {
-            childid = neco_lastid();
+            // Wait for the coroutine, which is using the local variables. It
+            // will not wait for the connection to be accepted.
+            neco_join(neco_lastid());
+            errno = cerrno;
+        }
+        if (fd0 >= 0) {
             int64_t dl = neco_now() + NECO_SECOND * 5;
             fd1 = neco_accept_dl(ln, 0, 0, dl);
             neco_errconv_to_sys(fd1);
-            if (fd1 > 0) {
+            if (fd1 >= 0) {
                 // Other side of pipe is connected.
                 // Waiting for the handshake.
                 int64_t data;
@@ -8047,12 +8057,13 @@ static int _pipe_(int pipefd[2]) {
                 }
             }
         }
+    }
+    int perrno = errno;
+    if (ln >= 0) {
         close(ln);
         unlink(path);
     }
-    int perrno = errno;
     if (ret == 0) {
-        neco_join(childid);
         pipefd[0] = fd0;
         pipefd[1] = fd1;
         fd0 = -1;
-- 
2.43.0


From a83c69a40141391e002ad6f0a602fb6b08d555d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:45 +0000
Subject: [PATCH 24/33] fix: neco_pipe failed when its socket path was in use

Every runtime starts with the same random seed, so threads or processes that
made a pipe at the same time (or one that was killed before) used the same
path for their first pipe. Try another path.
---
 neco.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index 1080ce7..2027001 100644
--- a/neco.c
+++ b/neco.c
@@ -8026,10 +8026,17 @@ static int _pipe_(int pipefd[2]) {
     int64_t secret;
     uint64_t tmpkey;
     neco_rand(&secret, 8, NECO_PRNG);
-    neco_rand(&tmpkey, 8, NECO_PRNG);
     char path[PATH_MAX];
-    snprintf(path, sizeof(path), "/tmp/neco.%" PRIu64 ".sock", tmpkey);
-    int ln = neco_serve("unix", path);
+    int ln;
+    int ntries = 0;
+    do {
+        // The path may be used by another thread or process, which has the
+        // same random seed.
+        neco_rand(&tmpkey, 8, NECO_PRNG);
+        snprintf(path, sizeof(path), "/tmp/neco.%" PRIu64 ".sock", tmpkey);
+        ln = neco_serve("unix", path);
+        ntries++;
+    } while (ln < 0 && errno == EADDRINUSE && ntries < 64);
     if (ln >= 0) {
         // State a coroutine to connect to the listener.
         int cerrno = 0;
-- 
2.43.0


From ce694c8ef2d11e7ae3baffec660d9751bb9da11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:16 +0000
Subject: [PATCH 25/33] fix: neco_getaddrinfo leaked its pipe when a descriptor
 was number zero

---
 neco.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index 2027001..7e83c32 100644
--- a/neco.c
+++ b/neco.c
@@ -6635,10 +6635,10 @@ static void gai_args_free(struct getaddrinfo_args *args) {
         free0(args->node);
         free0(args->hints);
         freeaddrinfo(args->res);
-        if (args->fds[0]) {
+        if (args->fds[0] != -1) {
             must(close(args->fds[0]) == 0);
         }
-        if (args->fds[1]) {
+        if (args->fds[1] != -1) {
             must(close(args->fds[1]) == 0);
         }
 #ifdef __FreeBSD__
@@ -6658,6 +6658,8 @@ static struct getaddrinfo_args *gai_args_new(const char *node,
         return NULL;
     }
     memset(args, 0, sizeof(struct getaddrinfo_args));
+    args->fds[0] = -1;
+    args->fds[1] = -1;
     if (node) {
         size_t nnode = strlen(node);
         args->node = malloc0(nnode+1);
-- 
2.43.0


From 0ae0a0a7b4d3b78b406a2d861740e5ee0f3f6462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:01 +0000
Subject: [PATCH 26/33] fix: the event queue was lost when its descriptor was
 number zero

With the standard input closed the event queue can get descriptor zero,
which the runtime took to mean 'no queue': every wait made another queue,
the waiters of the former one were never woken, and the descriptor leaked.
---
 neco.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/neco.c b/neco.c
index 7e83c32..373934d 100644
--- a/neco.c
+++ b/neco.c
@@ -3636,7 +3636,7 @@ struct runtime {
     unsigned int burstcount;
 };
 
-#define RUNTIME_DEFAULTS (struct runtime) { 0 }
+#define RUNTIME_DEFAULTS (struct runtime) { .qfd = -1 }
 
 static __thread struct runtime *rt = NULL;
 
@@ -4294,13 +4294,13 @@ static void rt_sched_paused_step(void) {
 // Resource collection step
 static void rt_rc_step(void) {
     int64_t now = getnow();
-    if (rt->nevwaiters == 0 && rt->qfd > 0) {
+    if (rt->nevwaiters == 0 && rt->qfd >= 0) {
         if (now - rt->qfdcreated > NECO_MILLISECOND * 100) {
             // Close the event queue file descriptor if it's no longer needed.
             // When the queue goes unused for more than 100 ms it will
             // automatically be closed.
             close(rt->qfd);
-            rt->qfd = 0;
+            rt->qfd = -1;
         }
     }
     // Deal with coroutine pools.
@@ -4337,7 +4337,7 @@ static int rt_scheduler(void) {
         sco_resume(0);
     }
     // Cleanup extra resources
-    if (rt->qfd) {
+    if (rt->qfd >= 0) {
         close(rt->qfd);
     }
     struct coroutine *co = colist_pop_front(&rt->pool);
@@ -4989,7 +4989,7 @@ static int wait_dl(int fd, enum evkind kind, int64_t deadline) {
 
     sco_yield();
 #else
-    if (rt->qfd == 0) {
+    if (rt->qfd == -1) {
         // The scheduler currently does not have an event queue for handling
         // file events. Create one now. This new queue will be shared for the 
         // entirety of the scheduler. It will be automatically freed when it's
@@ -4999,7 +4999,6 @@ static int wait_dl(int fd, enum evkind kind, int64_t deadline) {
             // Error creating the event queue. This is usually due to a system
             // that is low on resources or is limiting the number of file
             // descriptors allowed by a program, e.g. ulimit. 
-            rt->qfd = 0;
             return -1;
         }
         // The queue was successfully created.
-- 
2.43.0


From 28202fed2d78c72cb47855e2533300a058a049f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:25 +0000
Subject: [PATCH 27/33] fix: neco_stream_read_byte left the error of an earlier
 operation in neco_lasterr

---
 neco.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neco.c b/neco.c
index 373934d..87411ff 100644
--- a/neco.c
+++ b/neco.c
@@ -8392,6 +8392,7 @@ int neco_stream_read_byte_dl(neco_stream *stream, int64_t deadline) {
         byte = (unsigned char)stream->rd.data[stream->rd.pos];
         stream->rd.pos++;
         stream->rd.len--;
+        error_guard(NECO_OK);
     } else {
         ssize_t ret = neco_stream_read_dl(stream, &byte, 1, deadline);
         if (ret != 1) {
-- 
2.43.0


From 5dc8663f1b5f10f9295945db4b85540b33b52026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:25 +0000
Subject: [PATCH 28/33] fix: the signal stack was left pointing to freed memory
 after the runtime ended

---
 neco.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 87411ff..be58440 100644
--- a/neco.c
+++ b/neco.c
@@ -3616,6 +3616,7 @@ struct runtime {
     int sigqueue[32];              // queue of signals waiting for delivery
 #ifndef _WIN32
     struct sigaction sigold[32];   // previous signal handlers, for restoring
+    stack_t sigaltold;             // previous signal stack, for restoring
 #endif
     char *sigstack;                // stack for signals
     int sigcrashed;
@@ -4028,7 +4029,7 @@ static int rt_handle_signals(void) {
         .ss_size = NECO_SIGSTKSZ,
         .ss_flags = 0,
     };
-    must(sigaltstack(&ss, NULL) == 0);
+    must(sigaltstack(&ss, &rt->sigaltold) == 0);
 #endif
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         int signo = ALLOWED_SIGNALS[i];
@@ -4053,6 +4054,9 @@ static void rt_restore_signal_handlers(void) {
         // Allocation failed during the initialization.
         return;
     }
+#if NECO_SIGSTKSZ > 0
+    must(sigaltstack(&rt->sigaltold, NULL) == 0);
+#endif
     free0(rt->sigstack);
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         int signo = ALLOWED_SIGNALS[i];
-- 
2.43.0


From 845ee0b02b50ee827d33408bcbd279848a13e207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:25 +0000
Subject: [PATCH 29/33] fix: a signal that arrived while another one was being
 delivered could be lost

---
 neco.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/neco.c b/neco.c
index be58440..465f8bc 100644
--- a/neco.c
+++ b/neco.c
@@ -3610,10 +3610,10 @@ struct runtime {
 
     struct colist sigwaiters;      // signal waiting coroutines
     size_t nsigwaiters;
-    uint32_t sigmask;              // signal mask from handler
+    _Atomic(uint32_t) sigmask;     // signal mask from handler
     int sigwatchers[32];           // signals being watched, reference counted
     bool mainthread;               // running on the main thread
-    int sigqueue[32];              // queue of signals waiting for delivery
+    _Atomic(int) sigqueue[32];     // queue of signals waiting for delivery
 #ifndef _WIN32
     struct sigaction sigold[32];   // previous signal handlers, for restoring
     stack_t sigaltold;             // previous signal stack, for restoring
@@ -4069,16 +4069,25 @@ static void rt_restore_signal_handlers(void) {
 #endif
 }
 
+// Take a signal from the queue. It may be interrupted by the signal handler 
+// at any point.
+static void sigqueue_pop(int signo) {
+    if (--rt->sigqueue[signo] == 0) {
+        rt->sigmask &= ~(UINT32_C(1) << signo);
+        if (rt->sigqueue[signo] > 0) {
+            // Another signal just arrived.
+            rt->sigmask |= UINT32_C(1) << signo;
+        }
+    }
+}
+
 static void rt_sched_signal_step(void) {
     for (int signo = 0; signo < 32; signo++) {
         if (rt->sigqueue[signo] == 0) {
             continue;
         } else if (rt->sigwatchers[signo] == 0) {
             // The signal is no longer being watched.
-            rt->sigqueue[signo]--;
-            if (rt->sigqueue[signo] == 0) {
-                rt->sigmask &= ~(UINT32_C(1) << signo);
-            }
+            sigqueue_pop(signo);
             if (signo != SIGPIPE) {
                 sigexitnow(signo);
             }
@@ -4093,10 +4102,7 @@ static void rt_sched_signal_step(void) {
                     // the coroutine.
                     co->sigmask = (uint32_t)signo;
                     complete(co);
-                    rt->sigqueue[signo]--;
-                    if (rt->sigqueue[signo] == 0) {
-                        rt->sigmask &= ~(UINT32_C(1) << signo);
-                    }
+                    sigqueue_pop(signo);
                     sco_resume(co->id);
                     next = (struct coroutine*)&rt->sigwaiters.tail;
                     delivered = true;
-- 
2.43.0


From 87f2c055ab3c64325a3cee9b0cc28bcdb37a0eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:25 +0000
Subject: [PATCH 30/33] fix: a watched signal that arrived on another thread
 ended the program

---
 neco.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/neco.c b/neco.c
index 465f8bc..3eec877 100644
--- a/neco.c
+++ b/neco.c
@@ -3975,9 +3975,33 @@ void neco_reset_sigcrashed(void) {
 }
 #endif
 
+// The thread that handles the watched signals, see rt_handle_signals().
+static pthread_t sigthread;
+static volatile sig_atomic_t sigthreadset = 0;
+
+// The kernel may choose any thread of the program for delivering a signal,
+// such as a background worker. Hand it over to the main thread, which knows
+// who is watching.
+static bool sigforward(int signo) {
+    if (signo == SIGPIPE || !sigthreadset || 
+        pthread_equal(sigthread, pthread_self()))
+    {
+        return false;
+    }
+    for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
+        if (signo == ALLOWED_SIGNALS[i]) {
+            return pthread_kill(sigthread, signo) == 0;
+        }
+    }
+    return false;
+}
+
 static void sighandler(int signo, siginfo_t *info, void *ptr) {
     (void)info; (void)ptr;
     must(signo > 0 && signo < 32);
+    if (sigforward(signo)) {
+        return;
+    }
     if (!rt) {
         // This thread does not have a runtime, such as a background worker.
         // A broken pipe is reported by the write operation that caused it.
@@ -4031,6 +4055,8 @@ static int rt_handle_signals(void) {
     };
     must(sigaltstack(&ss, &rt->sigaltold) == 0);
 #endif
+    sigthread = pthread_self();
+    sigthreadset = 1;
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         int signo = ALLOWED_SIGNALS[i];
         must(sigaction(signo, &act, &rt->sigold[signo]) == 0);
@@ -4066,6 +4092,7 @@ static void rt_restore_signal_handlers(void) {
         int signo = TRAPPED_SIGNALS[i];
         must(sigaction(signo, &rt->sigold[signo], NULL) == 0);
     }
+    sigthreadset = 0;
 #endif
 }
 
-- 
2.43.0


From d20b388cc3b115219a6f7240f022ef359b817ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:53 +0000
Subject: [PATCH 31/33] fix: NECO_EOF had no error text

---
 neco.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neco.c b/neco.c
index 3eec877..ae98fdf 100644
--- a/neco.c
+++ b/neco.c
@@ -5717,6 +5717,8 @@ const char *neco_shortstrerror(int code) {
         return "NECO_PERM";
     case NECO_NOMEM:
         return "NECO_NOMEM";
+    case NECO_EOF:
+        return "NECO_EOF";
     case NECO_NOTFOUND:
         return "NECO_NOTFOUND";
     case NECO_NOSIGWATCH:
@@ -5762,6 +5764,8 @@ const char *neco_strerror(ssize_t errcode) {
         return strerror(EPERM);
     case NECO_NOMEM:
         return strerror(ENOMEM);
+    case NECO_EOF:
+        return "End of file";
     case NECO_NOTFOUND:
         return "No such coroutine";
     case NECO_NOSIGWATCH:
-- 
2.43.0


From 50debd6e6eba6e481fd2eb7d6b8897acb158d027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:53 +0000
Subject: [PATCH 32/33] fix: neco_gai_lasterr() did not report the error of
 neco_getaddrinfo()

---
 neco.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neco.c b/neco.c
index ae98fdf..ff40653 100644
--- a/neco.c
+++ b/neco.c
@@ -6887,6 +6887,7 @@ int neco_getaddrinfo_dl(const char *node, const char *service,
         err = NECO_ERROR;
     } else {
         err = NECO_GAIERROR;
+        neco_gai_errno = ret;
     }
     async_error_guard(err);
     return ret;
-- 
2.43.0


From 7d4cbea982c964580ecf3dd104d4728141ac06c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:09 +0000
Subject: [PATCH 33/33] fix: address slots of channel rings larger than 2 GiB
 without overflow

The offset of a slot was computed as int: a message passed through the select
slot of a channel whose ring is larger than 2 GiB was written outside of the
channel.
---
 neco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index ff40653..b2e9502 100644
--- a/neco.c
+++ b/neco.c
@@ -5892,7 +5892,7 @@ struct coselectcase {
 
 // returns the message slot
 static char *cbufslot(struct neco_chan *chan, int index) {
-    return chan->data + (chan->msgsize * index);
+    return chan->data + (size_t)chan->msgsize * (size_t)index;
 }
 
 // push a message to the back by copying from data
-- 
2.43.0

