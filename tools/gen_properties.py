#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, mech, state=(), observe=(), files=("neco.c", "neco.h"), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

S = "schedules"; I = "inputs"; PR = "programs"; H = "histories"; F = "fault_sequences"; C = "configurations"

p("C01", "Fair and deterministic scheduling order",
  "A started coroutine runs at once (its starter continues after the coroutines already in line, before those that yielded), coroutines that yield run again in the order in which they yielded, and every ready coroutine gets to run before any other coroutine is given a third turn (coming back from a start is no new turn); one whose deadline has passed or that was canceled is ready, too, by the end of the round. The order in which coroutines run is a function of the program alone: the same program run again (with the same clock readings) produces the same sequence of operations and results.",
  [PR, S], "for every program of start / yield / suspend / resume / channel / lock / sleep operations over any number of coroutines",
  "Tests look at the order of two or three coroutines in fixed programs; fairness and determinism quantify over all programs and over unbounded runs.",
  [("runner/yielder/paused queues", "neco.c (embedded sco), deps/sco.c: sco_switch, sco_yield, sco_pause, sco_resume"), ("resumer queue", "neco.c: sched_resume, rt_sched_paused_step")],
  [("runners", "coroutines that run in this round", "sco"), ("yielders", "coroutines that run in the next round", "sco")],
  ["neco_start", "neco_yield", "return of every operation"], files=("neco.c", "deps/sco.c"))
p("C02", "Coroutine lifecycle, identity and fresh state",
  "Every started coroutine runs exactly once with exactly the argument vector it was given, under an id that is unique for the life of the program; last-started and starter ids name the right coroutines, and a new coroutine always begins with default state (no pending cancel, no last-started id, no watched signals, the configured cancel type and state) whatever ended before it. The first start call of a thread returns only after the coroutine and all its descendants finished, and a new runtime can then be started again.",
  [PR, H], "for every history of coroutine starts, exits and reuse of pooled coroutines, any argument count",
  "Pool reuse makes new coroutines inherit memory of dead ones; which fields are stale depends on the whole history of who exited in which state.",
  [("start/coentry/coexit/cleanup", "neco.c"), ("coroutine pool", "neco.c: rt->pool, rt_rc_step")],
  [("pool", "finished coroutines kept for reuse", "struct runtime")], ["neco_start", "neco_startv", "neco_getid", "neco_lastid", "neco_starterid"], files=("neco.c", "deps/sco.c", "deps/aat.h"))
p("C03", "Join returns exactly when the target has terminated",
  "A join on a live coroutine returns success only after that coroutine terminated (by any way of ending) and is then always woken; a join on an unknown or finished coroutine returns success immediately, and on oneself reports that it is not permitted. A join that times out or is canceled returns that error and leaves the target unaffected.",
  [PR, S], "for every number of joiners, way of ending of the target, and placement of deadlines and cancels",
  "Tests join one or two coroutines; lost wakeups depend on the order of exit, cancel, and deadline expiry.",
  [("join list", "neco.c: join_dl, coexit")], [("joinlist", "coroutines waiting for this one", "struct coroutine")], ["neco_join", "neco_join_dl"])
p("C04", "Sleeps and deadlines fire neither early nor late nor never",
  "A sleep returns success only once the requested time has passed; an operation returns the timed-out error only once its deadline has passed and it did not complete, and the runtime never sleeps past the earliest pending deadline while it has one. A negative sleep or a deadline already in the past reports timed-out without waiting.",
  [PR, S, I], "for every set of simultaneously pending deadlines (equal, ordered, nested, removed early) and every clock behaviour",
  "Deadline order is kept in a search tree whose content depends on the whole history of insertions and early removals; tests have a few timers and real clocks.",
  [("deadline tree", "neco.c: dlqueue, copause, rt_sched_paused_step"), ("checkdl", "neco.c")], [("deadlines", "paused coroutines by deadline", "struct runtime")], ["neco_sleep", "neco_sleep_dl", "every *_dl operation"], files=("neco.c", "deps/aat.h"))
p("C05", "Channels deliver every message exactly once, in order",
  "Every message whose send reported success is received by exactly one receiver (or stays in the buffer), unmodified, and messages leave a channel in the order in which their sends began; no receive ever returns a message that was not sent. A send that reports an error (closed, timed out, canceled) delivered nothing, and a receive that reports an error consumed nothing, even if the deadline or cancel coincides with the delivery.",
  [PR, S, I], "for all programs of concurrent senders and receivers, capacities, message sizes (including zero), deadlines and cancels",
  "Loss or duplication needs particular interleavings of delivery with cancel/deadline and of ring-buffer wrap with blocked senders.",
  [("chan_send0/chan_tryrecv0", "neco.c"), ("ring buffer", "neco.c: cbuf_push, cbuf_pop"), ("completion flag", "neco.c: complete, checkpause")],
  [("queue/buf", "waiting senders or receivers, buffered messages", "struct neco_chan")], ["neco_chan_send(_dl)", "neco_chan_recv(_dl)", "neco_chan_tryrecv"])
p("C06", "Channel capacity and blocking behaviour",
  "A send completes without waiting exactly when a receiver is waiting or fewer than capacity messages are buffered, and otherwise waits until a receiver makes room; a receive completes without waiting exactly when a message is available, and a try-receive never waits and reports empty exactly when no message is available. A waiting sender or receiver is woken as soon as its operation can complete, in the order they began waiting.",
  [PR, S], "for all capacities and all interleavings of blocking, try and deadline operations",
  "Needs all combinations of buffer level, waiting queue content and withdrawal from the queue.",
  [("chan_send0/chan_tryrecv0", "neco.c")], [("bufcap/buflen", "ring capacity and fill", "struct neco_chan")], ["neco_chan_make", "neco_chan_send", "neco_chan_recv", "neco_chan_tryrecv"])
p("C07", "Closing a channel drains it and then reports closed",
  "After a close, sends fail with closed, a second close fails with closed, messages already buffered or being sent by waiting senders are still delivered in order, and when none is left every present and future receive (plain, try or select) reports closed instead of waiting. A close wakes all waiting receivers when nothing is left to deliver.",
  [PR, S], "for all channel states at the time of the close and all later receives, withdrawals of waiting senders, deadlines and cancels",
  "The receive side closes at different moments depending on buffer and waiting senders, which may withdraw later.",
  [("chan_close, chan_isrclosed", "neco.c")], [("sclosed/rclosed", "closed flags", "struct neco_chan")], ["neco_chan_close", "neco_chan_recv", "neco_chan_select"])
p("C08", "Select receives from exactly one ready channel",
  "A select returns the index of a channel that had a message or was closed, consumes exactly one message from that channel and none from the others, and the following case call hands out exactly that message (or closed) to that caller, also when several coroutines select on the same channels. A select waits only while no listed channel is ready, a try-select never waits and reports empty exactly when none is ready, and a select that times out or is canceled consumes nothing.",
  [PR, S], "for all sets of channels (any number, repeats, mixed sizes), all concurrent senders, selectors and receivers",
  "A selecting coroutine sits in several queues at once; loss or duplication needs concurrent senders or selectors on the same channels.",
  [("chan_select, chan_selectv_dl, chan_case", "neco.c")], [("coselectcase", "queue entry of a select", "neco.c")], ["neco_chan_select(v)(_dl)", "neco_chan_tryselect(v)", "neco_chan_case"])
p("C09", "Broadcast reaches exactly the waiting receivers",
  "A broadcast delivers its message exactly once to every coroutine waiting to receive or select on the channel at that moment, to no other, never waits for receivers and never buffers, and returns the number of receivers reached; a broadcast on a closed channel reports closed. Broadcast is not affected by a pending cancel of the caller other than by asynchronous termination.",
  [PR, S], "for all mixes of waiting receivers and selectors, including ones whose deadline or cancel is about to fire",
  "Depends on the content of the waiting queue in all combinations.",
  [("chan_send0(broadcast)", "neco.c")], [], ["neco_chan_broadcast"])
p("C10", "Generators yield each value once and close at exit",
  "Values yielded by a generator coroutine are received by next calls exactly once and in order, a yield waits for a consumer, and when the generator coroutine ends in any way (return, exit, cancel) or is closed every consumer gets closed after the last value. Yielding outside of a generator coroutine reports not-a-generator, including in a coroutine that runs in the place of a finished generator.",
  [PR, S], "for all programs of generators and consumers, early closing, cancel and deadline",
  "Lifetime of the generator object is shared between the generator and its consumers; endings interleave.",
  [("neco_gen_*", "neco.c"), ("coexit closes gen", "neco.c")], [("gen", "generator channel of a coroutine", "struct coroutine")], ["neco_gen_start", "neco_gen_yield", "neco_gen_next", "neco_gen_close"])
p("C11", "Mutual exclusion of locks",
  "At any time a lock is held by at most one writer and then by no reader, or by any number of readers; a lock operation that reported success holds it until its unlock, and one that failed does not. Try operations never wait and succeed exactly when the lock can be taken at once without overtaking waiting coroutines; destroying a held lock reports busy.",
  [PR, S], "for all programs of lock, rdlock, trylock, tryrdlock, unlock, with deadlines and cancels",
  "Exclusion must hold for every interleaving of reader batches, hand-off and withdrawal.",
  [("mutex_trylock, mutex_tryrdlock, mutex_release", "neco.c")], [("locked/rlocked", "lock state", "struct neco_mutex")], ["neco_mutex_*"])
p("C12", "Locks are handed over in order and never leaked",
  "An unlock hands the lock to the longest-waiting coroutine (together with directly following readers if that one is a reader), so waiters acquire in FIFO order and none waits while the lock is free. A waiter that times out or is canceled leaves the queue without holding the lock and without affecting the others; if the hand-over came first it holds the lock and reports success.",
  [PR, S], "for all queues of readers and writers with deadlines and cancels at any point",
  "Leaks need a cancel or deadline racing with the hand-over.",
  [("mutex_release, finish_lock", "neco.c"), ("checkpause", "neco.c")], [("queue", "waiting coroutines", "struct neco_mutex")], ["neco_mutex_lock(_dl)", "neco_mutex_rdlock(_dl)", "neco_mutex_unlock"])
p("C13", "Condition variables lose no signal and always relock",
  "Waiting atomically releases the mutex and joins the waiters, so a signal sent after the release wakes a waiter; signal wakes exactly the longest waiter, broadcast wakes all, and without a waiter both do nothing. A wait returns only after reacquiring the mutex exclusively, with success iff it was signaled, else timed-out or canceled, and a cancel that arrives while relocking is not lost.",
  [PR, S], "for all programs of waiters, signalers, broadcasters and lock users, deadlines and cancels",
  "A lost signal needs contention on the mutex at the moment of the wait, or a cancel/deadline coinciding with the signal.",
  [("cond_wait_dl, cond_signal, cond_broadcast, mutex_relock", "neco.c")], [("queue", "waiters", "struct neco_cond")], ["neco_cond_*"])
p("C14", "Waitgroups release waiters exactly at zero",
  "A waitgroup wait returns success only when the counter is or has become zero since the wait began, all waiters are woken when it reaches zero, and none remains waiting while it is zero. The counter never becomes negative: an add or done that would make it so reports an error and changes nothing; timed-out or canceled waits leave the counter alone.",
  [PR, S], "for all programs of add (positive and negative), done, wait with deadlines and cancels, and reuse",
  "Needs interleavings of several waiters with reuse of the group, cancels and deadlines.",
  [("waitgroup_*", "neco.c")], [("count/queue", "counter and waiters", "struct neco_waitgroup")], ["neco_waitgroup_*"])
p("C15", "Cancel is delivered exactly once and never lost",
  "A cancel that reports success makes exactly one blocking operation of the target return canceled (the one it is blocked in, or else its next blocking one), never a later coroutine's and never an operation that completed; canceled takes priority over timed-out. Canceling an unknown or finished coroutine reports not-found; while the target has cancelation disabled the caller waits until it is enabled again or the target ends.",
  [PR, S], "for all placements of a cancel relative to blocking, completion, deadline expiry, enable/disable and exit of the target, including cancels of cancelers and of oneself",
  "Races of one cancel with every other wakeup source; tests sample a few.",
  [("cancel_dl, checkdl, checkpause, copause, setcancelstate", "neco.c")], [("canceled", "pending cancel", "struct coroutine"), ("cancellist", "blocked cancelers", "struct coroutine")], ["neco_cancel(_dl)", "neco_setcancelstate", "neco_setcanceltype"])
p("C16", "Termination runs cleanup handlers once, in reverse order",
  "When a coroutine is terminated asynchronously by a cancel or exits itself early, every cleanup handler pushed and not yet popped runs exactly once in reverse order of pushing, inside the coroutine, before joiners are released; handlers that were popped do not run again and a coroutine that ends normally runs none. With asynchronous cancelation a canceled blocking call never returns to the caller, with inline cancelation it always does and no handler runs.",
  [PR, S], "for all nestings of push/pop, points of cancel or exit, and handlers that themselves block, yield, unlock or send",
  "Handlers may yield and block; termination must stay exactly-once in all schedules.",
  [("coexit, cleanup_push, cleanup_pop, async_error_guard, coyield", "neco.c")], [("cleanup", "handler stack", "struct coroutine")], ["neco_cleanup_push", "neco_cleanup_pop", "neco_exit", "neco_cancel"])
p("C17", "Suspend and resume pair up exactly",
  "A suspended coroutine continues only when resumed, canceled or timed out, each reported by the matching result, and a resume of a suspended coroutine always wakes it. Resuming a coroutine that is not suspended reports not-suspended and has no later effect, and resuming an unknown or finished one reports not-found.",
  [PR, S], "for all interleavings of suspend, resume, cancel and deadlines",
  "Stale wakeups and lost resumes need races with cancel and deadline.",
  [("suspend_dl, resume", "neco.c")], [("suspended", "flag", "struct coroutine")], ["neco_suspend(_dl)", "neco_resume"])
p("C18", "Reads and writes move bytes intact and always wake up",
  "Bytes written through a descriptor arrive at the reader unmodified, in order, none lost or duplicated; a write reports as written exactly the bytes that entered the descriptor (all of them unless it reports an error or a partial count), also when it times out or is canceled midway, and a read returns what is available, end of file after hang-up. A coroutine blocked on a descriptor that has become readable, writable, hung up or failed is always woken, whatever other coroutines wait on the same descriptor.",
  [PR, S, I], "for all sizes, partial transfers, pipes and sockets, concurrent readers and writers on one descriptor, deadlines, cancels and hang-ups",
  "Depends on kernel buffer levels, one-shot event registration shared between waiters, and worker threads.",
  [("read_dl, write_dl, wait_dl, rt_sched_event_step, iopause", "neco.c")], [("evwaiters", "descriptor waiters", "struct runtime")], ["neco_read(_dl)", "neco_write(_dl)", "epoll"])
p("C19", "Waiting for descriptor readiness is precise",
  "A wait for reading or writing returns success only when the descriptor is ready for it (data, room, hang-up or error) and returns promptly when it is; several coroutines waiting on the same or different descriptors and directions are all woken by the events that concern them, and only by these. Timeouts and cancels end only the wait concerned.",
  [PR, S], "for all sets of waiters over descriptors and directions, events, deadlines, cancels, and descriptor reuse",
  "One-shot registration and a shared wait map make a wakeup of one waiter affect others.",
  [("wait_dl, wait_dl_addevent, rt_sched_event_step", "neco.c")], [("evmap", "waiters by descriptor and direction", "neco.c")], ["neco_wait(_dl)"], files=("neco.c", "deps/aat.h"))
p("C20", "Streams preserve the byte sequence through buffering",
  "Bytes written to a stream reach the descriptor exactly once and in order once flushed or closed (partial, timed-out or canceled flushes keep exactly the unsent rest), and bytes read from a stream are exactly those of the descriptor in order, across any mix of read, read-full, read-byte and unread-byte. Reported counts and buffered sizes are exact, unread succeeds exactly when the last byte is still buffered, and end of file is reported as such.",
  [PR, I, F], "for all buffer sizes, chunkings, mixes of operations, partial writes and timeouts",
  "Buffer boundary conditions and partial transfers combine arbitrarily.",
  [("stream_*", "neco.c")], [("rd/wr", "stream buffers", "struct neco_stream")], ["neco_stream_*"])
p("C21", "Watched signals are delivered once, to a waiting watcher",
  "Each arrival of a signal that some coroutine watches is returned by exactly one signal wait of a coroutine watching it, queued until somebody waits; it is neither lost nor delivered to a coroutine that does not watch it, even if another signal is pending, a deadline or cancel coincides, or it arrives on another thread or at any point of the execution. Waiting without watching reports so, and a watch ends with unwatch or with its coroutine.",
  [PR, S, H], "for all interleavings of arrivals of several signals with watch, unwatch, wait, deadline, cancel and exit",
  "Tests raise one signal at a time.",
  [("signal_watch/unwatch/wait_dl, sigallowhandler, rt_sched_signal_step", "neco.c")], [("sigqueue/sigwatchers", "pending counts, watchers", "struct runtime")], ["neco_signal_*"])
p("C22", "Background work runs exactly once before its call returns",
  "A background-work call runs the given function exactly once on another thread and returns only after it finished, regardless of cancels of the caller; work pinned to the same number runs one at a time in submission order on one thread. Other coroutines keep running meanwhile, also when all queues are full.",
  [PR, S, C], "for all loads, pins, queue sizes, cancel placements and thread interleavings",
  "Thread timing and full rings are not covered by single-shot tests.",
  [("workfn, iowork, iopause", "neco.c"), ("worker_submit, worker_entry", "neco.c (embedded), deps/worker.c")], [("iolist", "finished work", "struct runtime")], ["neco_work"], files=("neco.c", "deps/worker.c"))
p("C23", "Runtimes of different threads are isolated",
  "Each thread has its own runtime: operations called outside of a coroutine report not-permitted and change nothing, and using a channel, lock, waitgroup, condition or stream of another thread's runtime (or of an earlier one) reports not-permitted without touching it. Concurrent runtimes do not influence each other's results, and ids stay unique across them.",
  [PR, S, C], "for all operations and all numbers of concurrently running runtimes",
  "Tests check a few operations from outside and do not run mixed programs in several threads.",
  [("thread-local rt, rtid checks", "neco.c")], [("rtid", "owning runtime", "every object")], ["every neco_* operation"], files=("neco.c", "deps/sco.c", "deps/stack.c"))
p("C24", "No leaks, and allocation failure is reported cleanly",
  "When a runtime ends, all memory it allocated has been freed, exactly once, and all internal descriptors are closed, whatever ended in which way. If an allocation fails at any point the operation reports out-of-memory, leaves the objects usable and leaks nothing.",
  [PR, F], "for all programs and for failure of every single allocation in them",
  "Tests fail chosen allocations in chosen calls only.",
  [("chan_fastrelease, zchanpush, coroutine_free, stack manager, run()", "neco.c, deps/stack.c")], [("pools", "coroutine, channel and stack pools", "struct runtime")], ["neco_env_setallocator"], files=("neco.c", "deps/stack.c", "deps/worker.c"))
p("C25", "Statistics always equal the real counts",
  "At every moment the reported statistics equal the number of live coroutines and the number of coroutines currently inside a sleep, send, receive or select, lock, waitgroup, condition, suspend, signal and descriptor wait. They return to zero when these end, in whichever way they end.",
  [PR, S], "for all programs, at every point of the run",
  "Counters drift only after particular sequences (cancel, deadline, asynchronous exit).",
  [("getstats and n* counters", "neco.c")], [("nsleepers ...", "counters", "struct runtime")], ["neco_getstats"])
p("C26", "Error codes are reported consistently",
  "After every operation the last-error value equals the error that the operation returned (system errors converted to their own code) and is OK after a success; invalid arguments always yield invalid and change nothing. Conversion between system errors and library errors is consistent in both directions.",
  [PR, I], "for all operations, arguments and outcomes",
  "Tests check single calls; the last error is thread-local and must survive interleavings.",
  [("error_guard, errhpnd, neco_errconv_*", "neco.c")], [("lasterr", "last error", "neco.c")], ["neco_lasterr"])
p("C27", "Dial, serve, accept and pipe connect the right peers",
  "A dial to a served address (tcp or unix) yields a connected non-blocking descriptor whose peer is returned by exactly one accept, and pipe yields two connected bidirectional non-blocking descriptors; failures, timeouts and cancels report the right error and leave no descriptor open. Unix sockets paths are handled as given, and addresses without port or with unknown network are rejected.",
  [PR, S, F], "for all interleavings of dialers, acceptors, deadlines and cancels, and every failing system call",
  "Descriptor leaks and mismatches need failures at particular calls and races.",
  [("dial_dl, serve_dl, accept_dl, connect_dl, _pipe_", "neco.c")], [], ["neco_dial", "neco_serve", "neco_accept", "neco_connect", "neco_pipe"])
p("C28", "Coroutine stacks and registers are private",
  "Local variables, callee-saved registers and deep call frames of a coroutine are unchanged by anything that other coroutines do, and the stacks of live coroutines never overlap, across any number of coroutines and any reuse of stacks. The memory of a finished coroutine's stack may be reused only after it ended.",
  [PR, S, C], "for all numbers of coroutines, orders of creation and end, stack depths and stack manager settings",
  "Needs many simultaneously live coroutines and stack reuse patterns.",
  [("stack_get/stack_put, llco_switch", "neco.c (embedded), deps/stack.c, deps/llco.c")], [("freestacks/groups", "stack allocator", "struct stack_mgr")], ["coroutine entry", "every switch"], files=("neco.c", "deps/stack.c", "deps/llco.c", "deps/sco.c"))
p("C30", "A program ends when and how it should",
  "A signal that no coroutine watches ends the program at once with exit code 128 plus its number (a broken pipe is ignored), as does one that is pending when its last watch ends; a fault in a coroutine ends it the same way; a panic aborts it. With panic-on-error switched on, an operation that fails with invalid, not permitted or out of memory aborts the program and no other outcome does; without it none does. The value given to the exit of the main coroutine becomes the exit code. Once the first start call has returned, the signal handlers and the signal stack of before are in place again, on whatever thread a signal arrives.",
  [PR, H, S], "for all histories of watch, unwatch, raise, wait and exit over all coroutines and signals, and all points at which a signal arrives",
  "The existing tests replace the exit by a stub, and one process can end only once.",
  [("sighandler, sigexitnow, rt_handle_signals, rt_restore_signal_handlers, rt_sched_signal_step", "neco.c"), ("errhpnd, panic, __neco_exit_prog", "neco.c")], [("sigwatchers/sigqueue", "watchers, pending", "struct runtime")], ["exit status of the process", "neco_signal_*", "neco_panic", "neco_env_setpaniconerror"])
p("C29", "Pseudo random sequences are reproducible per seed",
  "With the non-cryptographic generator the byte sequence after setting a seed is a function of the seed and of the request sizes alone: the same in every coroutine, runtime and thread and at every time, not influenced by secure requests, failed ones or other runtimes; setting a seed returns the value with which the sequence can be continued later. A request fills exactly the bytes asked for, lets others run between its parts, and stops at its deadline or when canceled; secure requests never repeat. ",
  [I], "for all seeds and request sizes", "All seeds and sizes.",
  [("pcgrandom_buf, rand_setseed", "neco.c")], [], ["neco_rand", "neco_rand_setseed"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
