------------------------------ MODULE NecoBulk ------------------------------
(***************************************************************************)
(* The same operations as in NecoCore, in bulk: hundreds of coroutines at  *)
(* one object, capacities, message sizes, counters and argument lists of   *)
(* up to 70000. A state holds numbers where NecoCore holds coroutines; an  *)
(* event is an operation done e.n times, after which the system has come   *)
(* to rest. It carries                                                     *)
(*   e.r, e.k, e.x   the last result, how many succeeded, the first value  *)
(*   e.good          nothing was wrong with any value (contents, order)    *)
(*   e.o, e.p        what came of the operations that ended since the last *)
(*                   event (o: the crowd, p: the senders among it): how    *)
(*                   many succeeded, were closed, canceled, timed out, not *)
(*                   found; the number and the message of the first of     *)
(*                   them, whether the messages of the others follow (seq) *)
(*                   or are the same                                       *)
(*   e.st            the statistics, e.t the time (microseconds)           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b
\* queues of waiting coroutines are runs [k: what for, f: number of the first, n: how many]
Run(k, f, n) == [k |-> k, f |-> f, n |-> n]
RECURSIVE Size(_)
Size(q) == IF q = <<>> THEN 0 ELSE Head(q).n + Size(Tail(q))
Put(q, r) == IF r.n = 0 THEN q ELSE Append(q, r)
RECURSIVE DropHead(_, _)
DropHead(q, n) ==
  IF n = 0 \/ q = <<>> THEN q
  ELSE IF Head(q).n <= n THEN DropHead(Tail(q), n - Head(q).n)
  ELSE <<[Head(q) EXCEPT !.f = @ + n, !.n = @ - n]>> \o Tail(q)
RECURSIVE DropTail(_, _)
DropTail(q, n) ==
  IF n = 0 \/ q = <<>> THEN q
  ELSE LET l == q[Len(q)]
           f == SubSeq(q, 1, Len(q) - 1) IN
       IF l.n <= n THEN DropTail(f, n - l.n) ELSE Append(f, [l EXCEPT !.n = @ - n])
First(q) == IF q = <<>> THEN -1 ELSE Head(q).f

(****************************** observations *******************************)
Zero == [ok |-> 0, cl |-> 0, can |-> 0, tmo |-> 0, nf |-> 0]
Saw(o, want) == /\ \A f \in DOMAIN Zero : o[f] = want[f]
                /\ o.oth = 0
None(o) == Saw(o, Zero)
Oks(n) == [Zero EXCEPT !.ok = n]
Cans(n) == [Zero EXCEPT !.can = n]
Cls(n) == [Zero EXCEPT !.cl = n]
\* the messages m, m + 1, ... went to the n coroutines from number f on
Follow(o, n, f, m) == n > 0 => o.first = f /\ o.msg = m /\ o.seq
Alike(o, n, m) == n > 0 => o.msg = m /\ o.same

Stat == [coroutines |-> 1, sleepers |-> 2, evwaiters |-> 3, sigwaiters |-> 4, senders |-> 5, receivers |-> 6,
         locked |-> 7, waitgroupers |-> 8, condwaiters |-> 9, suspended |-> 10]
\* the coroutine that asks is alive, too, and in none of these
StatsAre(e, live, in) ==
  \A f \in DOMAIN Stat : e.st[Stat[f]] = IF f = "coroutines" THEN 1 + live ELSE IF f \in DOMAIN in THEN in[f] ELSE 0

If(ok, s) == IF ok THEN { s } ELSE {}

(******************************** channels *********************************)
\* lo..hi-1 are the messages in the buffer, hi..hi+sw-1 those of the waiting
\* senders, rq the waiting receivers
ChanInit(e) == [kind |-> "chan", cap |-> e.a, lo |-> 0, hi |-> 0, sw |-> 0, rq |-> <<>>, cls |-> FALSE]
ChanStats(s, e) == StatsAre(e, s.sw + Size(s.rq), [senders |-> s.sw, receivers |-> Size(s.rq)])
\* k messages leave: as many senders move up
Take(s, k) == LET u == Min(s.sw, k) IN [s EXCEPT !.lo = @ + k, !.hi = @ + u, !.sw = @ - u]
Chan(s, e) ==
  LET len == s.hi - s.lo
      all == len + s.sw
      rw == Size(s.rq)
      z(n) == \* the state after n sends that did not wait
        LET a == Min(n, rw) IN
        [s EXCEPT !.lo = @ + a, !.hi = @ + n, !.rq = DropHead(@, a)]
      room == rw + (s.cap - len)
      up(k) == Min(s.sw, k) IN
  CASE e.e = "send" ->
         LET k == IF s.cls THEN 0 ELSE Min(e.n, room)
             a == Min(k, rw) IN
         If(/\ e.k = k
            /\ e.r = IF s.cls THEN "CLOSED" ELSE IF k < e.n THEN "TIMEDOUT" ELSE "OK"
            /\ Saw(e.o, Oks(a)) /\ Follow(e.o, a, First(s.rq), s.hi) /\ None(e.p)
            /\ ChanStats(z(k), e), z(k))
    [] e.e = "bsend" ->
         LET k == IF s.cls THEN 0 ELSE Min(e.n, room)
             a == Min(k, rw)
             y == IF s.cls THEN s ELSE [z(k) EXCEPT !.sw = @ + (e.n - k)] IN
         If(/\ Saw(e.o, Oks(a)) /\ Follow(e.o, a, First(s.rq), s.hi)
            /\ Saw(e.p, IF s.cls THEN Cls(e.n) ELSE Oks(k)) /\ Follow(e.p, k, e.a, s.hi)
            /\ ChanStats(y, e), y)
    [] e.e = "recv" ->
         LET k == Min(e.n, all)
             y == Take(s, k) IN
         If(/\ e.k = k /\ e.good /\ e.x = IF k = 0 THEN -1 ELSE s.lo
            /\ e.r = IF k = e.n THEN "OK" ELSE IF s.cls THEN "CLOSED" ELSE "EMPTY"
            /\ None(e.o) /\ Saw(e.p, Oks(up(k))) /\ (up(k) > 0 => e.p.msg = s.hi /\ e.p.seq)
            /\ ChanStats(y, e), y)
    [] e.e = "brecv" ->
         LET k == Min(e.n, all)
             y0 == Take(s, k)
             y == IF s.cls THEN y0 ELSE [y0 EXCEPT !.rq = Put(@, Run("r", e.a + k, e.n - k))] IN
         If(/\ Saw(e.o, [Oks(k) EXCEPT !.cl = IF s.cls THEN e.n - k ELSE 0]) /\ Follow(e.o, k, e.a, s.lo)
            /\ Saw(e.p, Oks(up(k))) /\ (up(k) > 0 => e.p.msg = s.hi /\ e.p.seq)
            /\ ChanStats(y, e), y)
    [] e.e = "bcast" ->
         LET y == IF s.cls THEN s ELSE [s EXCEPT !.rq = <<>>] IN
         If(/\ IF s.cls THEN e.r = "CLOSED" ELSE e.r = "OK" /\ e.k = rw
            /\ Saw(e.o, Oks(IF s.cls THEN 0 ELSE rw)) /\ Alike(e.o, IF s.cls THEN 0 ELSE rw, e.a) /\ None(e.p)
            /\ ChanStats(y, e), y)
    [] e.e = "close" ->
         LET y == [s EXCEPT !.cls = TRUE, !.rq = <<>>] IN
         If(/\ e.r = IF s.cls THEN "CLOSED" ELSE "OK"
            /\ Saw(e.o, Cls(rw)) /\ None(e.p) /\ ChanStats(y, e), y)
    [] e.e = "rcancel" ->
         LET y == [s EXCEPT !.rq = DropTail(@, e.n)] IN
         If(e.n <= rw /\ Saw(e.o, Cans(e.n)) /\ None(e.p) /\ ChanStats(y, e), y)
    [] e.e = "scancel" ->
         LET y == [s EXCEPT !.sw = @ - e.n] IN
         If(e.n <= s.sw /\ Saw(e.p, Cans(e.n)) /\ None(e.o) /\ ChanStats(y, e), y)
    [] e.e = "end" ->
         If(e.n = rw /\ e.a = s.sw /\ Saw(e.o, Cans(rw)) /\ Saw(e.p, Cans(s.sw)) /\ StatsAre(e, 0, <<>>), s)
    [] OTHER -> {}

(********************************** locks **********************************)
\* h holders of kind m (they are suspended while they hold it), q the waiting
RwInit == [kind |-> "rw", m |-> "-", h |-> 0, q |-> <<>>]
RwStats(s, e) == StatsAre(e, s.h + Size(s.q), [locked |-> Size(s.q), suspended |-> s.h])
RECURSIVE Readers(_)
Readers(q) == IF q = <<>> \/ Head(q).k = "w" THEN 0 ELSE Head(q).n + Readers(Tail(q))
HandOver(s) ==
  IF s.h > 0 \/ s.q = <<>> THEN s
  ELSE IF Head(s.q).k = "w" THEN [s EXCEPT !.m = "w", !.h = 1, !.q = DropHead(@, 1)]
  ELSE [s EXCEPT !.m = "r", !.h = Readers(s.q), !.q = DropHead(@, Readers(s.q))]
\* those that got it are the first in line, without gaps if they came together
Got(e, n, q) == Saw(e.o, Oks(n)) /\ (n > 0 => e.o.first = First(q) /\ e.o.msg = e.o.first /\ (n <= Head(q).n => e.o.seq))
Rw(s, e) ==
  CASE e.e = "rd" ->
         IF s.q = <<>> /\ s.m # "w"
         THEN LET y == [s EXCEPT !.m = "r", !.h = @ + e.n] IN
              If(Saw(e.o, Oks(e.n)) /\ Follow(e.o, e.n, e.a, e.a) /\ RwStats(y, e), y)
         ELSE LET y == [s EXCEPT !.q = Put(@, Run("r", e.a, e.n))] IN If(None(e.o) /\ RwStats(y, e), y)
    [] e.e = "wr" ->
         LET k == IF s.h = 0 THEN 1 ELSE 0
             y == [s EXCEPT !.m = IF k = 1 THEN "w" ELSE @, !.h = @ + k, !.q = Put(@, Run("w", e.a + k, e.n - k))] IN
         If(Saw(e.o, Oks(k)) /\ Follow(e.o, k, e.a, e.a) /\ RwStats(y, e), y)
    [] e.e = "rel" ->
         LET z == [s EXCEPT !.h = @ - e.n, !.m = IF s.h = e.n THEN "-" ELSE @]
             y == HandOver(z)
             n == IF z.h = 0 THEN y.h ELSE 0 IN
         If(e.n <= s.h /\ Got(e, n, s.q) /\ RwStats(y, e), y)
    [] e.e = "try" ->
         If(/\ e.r = IF s.h = 0 THEN "OK" ELSE "BUSY"
            /\ e.k = IF s.m # "w" /\ s.q = <<>> THEN 0 ELSE 1
            /\ e.x = IF s.h = 0 THEN 0 ELSE 1
            /\ None(e.o) /\ RwStats(s, e), s)
    [] e.e = "cancel" ->
         LET y == [s EXCEPT !.q = DropTail(@, e.n)] IN
         If(e.n <= Size(s.q) /\ Saw(e.o, Cans(e.n)) /\ RwStats(y, e), y)
    [] e.e = "end" ->
         LET y == [s EXCEPT !.q = <<>>] IN If(e.n = Size(s.q) /\ Saw(e.o, Cans(e.n)) /\ RwStats(y, e), y)
    [] e.e = "free" -> If(e.r = "OK" /\ None(e.o) /\ StatsAre(e, 0, <<>>), s)
    [] OTHER -> {}

(******************************* waitgroups ********************************)
WgInit == [kind |-> "wg", c |-> 0, w |-> 0]
WgStats(s, e) == StatsAre(e, s.w, [waitgroupers |-> s.w])
WgAt(s, e, c) ==    \* the counter becomes c
  LET y == [s EXCEPT !.c = c, !.w = IF c = 0 THEN 0 ELSE @]
      n == IF c = 0 THEN s.w ELSE 0 IN
  If(Saw(e.o, Oks(n)) /\ Alike(e.o, n, 0) /\ WgStats(y, e), y)
Wg(s, e) ==
  CASE e.e = "add" ->
         IF s.c + e.a < 0 THEN If(e.r = "NEGWAITGRP" /\ None(e.o) /\ WgStats(s, e), s)
         ELSE IF e.r = "OK" THEN WgAt(s, e, s.c + e.a) ELSE {}
    [] e.e = "dones" ->
         LET k == Min(e.n, s.c) IN
         IF e.k = k /\ e.r = IF k < e.n THEN "NEGWAITGRP" ELSE "OK" THEN WgAt(s, e, s.c - k) ELSE {}
    [] e.e = "wait" ->
         LET y == [s EXCEPT !.w = IF s.c = 0 THEN 0 ELSE @ + e.n]
             n == IF s.c = 0 THEN e.n ELSE 0 IN
         If(Saw(e.o, Oks(n)) /\ Alike(e.o, n, 0) /\ WgStats(y, e), y)
    [] e.e \in {"cancel", "end"} ->
         LET y == [s EXCEPT !.w = @ - e.n] IN
         If(e.n <= s.w /\ (e.e = "end" => e.n = s.w) /\ Saw(e.o, Cans(e.n)) /\ WgStats(y, e), y)
    [] OTHER -> {}

(******************************* conditions ********************************)
\* v: how many have been woken so far (each takes the next number, under the lock)
CondInit == [kind |-> "cond", q |-> <<>>, v |-> 0]
CondStats(s, e) == StatsAre(e, Size(s.q), [condwaiters |-> Size(s.q)])
CondWake(s, e, n) ==
  LET y == [s EXCEPT !.q = DropHead(@, n), !.v = @ + n] IN
  If(e.r = "OK" /\ Saw(e.o, Oks(n)) /\ Follow(e.o, n, First(s.q), s.v) /\ CondStats(y, e), y)
Cond(s, e) ==
  CASE e.e = "wait" -> LET y == [s EXCEPT !.q = Put(@, Run("c", e.a, e.n))] IN If(None(e.o) /\ CondStats(y, e), y)
    [] e.e = "signal" -> CondWake(s, e, Min(e.n, Size(s.q)))
    [] e.e = "bcast" -> CondWake(s, e, Size(s.q))
    [] e.e \in {"cancel", "end"} ->
         LET y == [s EXCEPT !.q = DropTail(@, e.n)] IN
         If(e.n <= Size(s.q) /\ (e.e = "end" => y.q = <<>>) /\ Saw(e.o, Cans(e.n)) /\ CondStats(y, e), y)
    [] OTHER -> {}

(******************************* joins *************************************)
\* w wait for a coroutine that is suspended until it ends
JoinInit == [kind |-> "join", w |-> 0, over |-> FALSE]
JoinStats(s, e) == LET a == IF s.over THEN 0 ELSE 1 IN StatsAre(e, s.w + a, [suspended |-> a])
Join(s, e) ==
  CASE e.e \in {"join", "tjoin"} /\ s.over -> If(Saw(e.o, Oks(e.n)) /\ Alike(e.o, e.n, 1) /\ JoinStats(s, e), s)
    [] e.e = "join" /\ ~s.over -> LET y == [s EXCEPT !.w = @ + e.n] IN If(None(e.o) /\ JoinStats(y, e), y)
    [] e.e = "tjoin" /\ ~s.over -> If(Saw(e.o, [Zero EXCEPT !.tmo = e.n]) /\ JoinStats(s, e), s)
    [] e.e = "finish" ->
         LET y == [s EXCEPT !.w = 0, !.over = TRUE] IN
         If(~s.over /\ Saw(e.o, Oks(s.w)) /\ Alike(e.o, s.w, 1) /\ JoinStats(y, e), y)
    [] e.e = "cancel" -> LET y == [s EXCEPT !.w = @ - e.n] IN If(e.n <= s.w /\ Saw(e.o, Cans(e.n)) /\ JoinStats(y, e), y)
    [] e.e = "end" -> If(s.over /\ s.w = 0 /\ None(e.o) /\ JoinStats(s, e), s)
    [] OTHER -> {}

(******************************** cancels **********************************)
\* w wait to cancel a coroutine that has disabled it
CancelInit == [kind |-> "cancel", w |-> 0, dis |-> TRUE, over |-> FALSE]
CancelStats(s, e) == JoinStats(s, e)
Cancel(s, e) ==
  CASE e.e = "cancel" /\ s.over -> If(Saw(e.o, [Zero EXCEPT !.nf = e.n]) /\ CancelStats(s, e), s)
    [] e.e = "cancel" /\ ~s.over /\ s.dis -> LET y == [s EXCEPT !.w = @ + e.n] IN If(None(e.o) /\ CancelStats(y, e), y)
    [] e.e = "cancel" /\ ~s.over /\ ~s.dis -> If(Saw(e.o, Oks(e.n)) /\ CancelStats(s, e), s)
    [] e.e = "enable" -> LET y == [s EXCEPT !.w = 0, !.dis = FALSE] IN If(Saw(e.o, Oks(s.w)) /\ CancelStats(y, e), y)
    [] e.e = "disable" -> LET y == [s EXCEPT !.dis = TRUE] IN If(None(e.o) /\ CancelStats(y, e), y)
    [] e.e = "finish" ->
         LET y == [s EXCEPT !.w = 0, !.over = TRUE] IN
         If(~s.over /\ Saw(e.o, [Zero EXCEPT !.nf = s.w]) /\ CancelStats(y, e), y)
    [] e.e = "ccancel" -> LET y == [s EXCEPT !.w = @ - e.n] IN If(e.n <= s.w /\ Saw(e.o, Cans(e.n)) /\ CancelStats(y, e), y)
    [] e.e = "end" -> If(s.over /\ s.w = 0 /\ None(e.o) /\ CancelStats(s, e), s)
    [] OTHER -> {}

(***************************** suspend, start ******************************)
SuspInit == [kind |-> "susp", q |-> <<>>]
SuspStats(s, e) == StatsAre(e, Size(s.q), [suspended |-> Size(s.q)])
Susp(s, e) ==
  CASE e.e = "suspend" -> LET y == [s EXCEPT !.q = Put(@, Run("s", e.a, e.n))] IN If(None(e.o) /\ SuspStats(y, e), y)
    [] e.e = "resume" ->
         LET y == [s EXCEPT !.q = DropHead(@, e.k)] IN
         If(e.r = "OK" /\ e.k <= Size(s.q) /\ e.x = First(s.q) /\ Got(e, e.k, s.q) /\ SuspStats(y, e), y)
    [] e.e \in {"cancel", "end"} ->
         LET y == [s EXCEPT !.q = DropTail(@, e.n)] IN
         If(e.n <= Size(s.q) /\ (e.e = "end" => y.q = <<>>) /\ Saw(e.o, Cans(e.n)) /\ SuspStats(y, e), y)
    [] OTHER -> {}
StartInit == [kind |-> "start", n |-> 0]
Start(s, e) ==
  LET y == [s EXCEPT !.n = IF e.e = "start" THEN @ + e.n ELSE @ - e.n]
      ok == StatsAre(e, y.n, [suspended |-> y.n]) IN
  CASE e.e = "start" -> If(e.good /\ None(e.o) /\ ok, y)
    [] e.e \in {"finish", "end"} -> If(y.n >= 0 /\ (e.e = "end" => y.n = 0) /\ Saw(e.o, Oks(e.n)) /\ ok, y)
    [] OTHER -> {}

(******************************** sleeps ***********************************)
\* q: runs of sleepers, f: when they are due
SleepInit == [kind |-> "sleep", q |-> <<>>]
RECURSIVE Due(_, _), NotDue(_, _)
Due(q, t) == IF q = <<>> THEN 0 ELSE (IF Head(q).f <= t THEN Head(q).n ELSE 0) + Due(Tail(q), t)
NotDue(q, t) == IF q = <<>> THEN <<>> ELSE (IF Head(q).f <= t THEN <<>> ELSE <<Head(q)>>) \o NotDue(Tail(q), t)
Sleep(s, e) ==
  LET q == NotDue(s.q, e.t) IN
  CASE e.e = "sleep" ->
         LET y == [s EXCEPT !.q = Put(q, Run("s", e.a, e.n))] IN
         If(Saw(e.o, Oks(Due(s.q, e.t))) /\ StatsAre(e, Size(y.q), [sleepers |-> Size(y.q)]), y)
    [] e.e = "tick" ->
         LET y == [s EXCEPT !.q = q] IN
         If(Saw(e.o, Oks(Due(s.q, e.t))) /\ StatsAre(e, Size(y.q), [sleepers |-> Size(y.q)]), y)
    [] e.e = "end" -> If(e.n = Size(s.q) /\ Saw(e.o, Cans(e.n)) /\ StatsAre(e, 0, <<>>), s)
    [] OTHER -> {}

(****************************** descriptors ********************************)
\* W: the pipes that a coroutine waits for, B: those with a byte in them
FdInit == [kind |-> "fd", W |-> {}, B |-> {}, woke |-> <<>>]
Set(q) == { q[i] : i \in 1..Len(q) }
Fd(s, e) ==
  LET R == e.n..(e.a - 1)
      Woken(y, G, n) ==      \* exactly those of G were woken, and the byte is gone
        If(/\ Set(s.woke) = G /\ Len(s.woke) = Cardinality(G) /\ e.k = n
           /\ Saw(e.o, Oks(Cardinality(G)))
           /\ StatsAre(e, Cardinality(y.W), [evwaiters |-> Cardinality(y.W)]), y) IN
  CASE e.e = "woke" -> { [s EXCEPT !.woke = e.l] }
    [] e.e = "fdwait" ->
         LET new == R \ s.W
             G == new \cap s.B IN
         Woken([s EXCEPT !.W = @ \cup (new \ G), !.B = @ \ G], G, Cardinality(new))
    [] e.e = "ready" ->
         LET new == R \ s.B
             G == new \cap s.W IN
         Woken([s EXCEPT !.W = @ \ G, !.B = @ \cup (new \ G)], G, Cardinality(new))
    [] e.e \in {"fdcancel", "end"} ->
         LET C == IF e.e = "end" THEN s.W ELSE s.W \cap R
             y == [s EXCEPT !.W = @ \ C] IN
         If(/\ s.woke = <<>> /\ Saw(e.o, Cans(Cardinality(C)))
            /\ (IF e.e = "end" THEN e.n ELSE e.k) = Cardinality(C)
            /\ StatsAre(e, Cardinality(y.W), [evwaiters |-> Cardinality(y.W)]), y)
    [] OTHER -> {}

(************************* handlers, generators, work **********************)
OneInit(k) == [kind |-> k]
Clean(s, e) ==
  CASE e.e = "clean" ->
         If(/\ e.k = e.n - e.a /\ e.x = (IF e.k = 0 THEN -1 ELSE e.k) /\ e.good
            /\ Saw(e.o, Oks(1)) /\ StatsAre(e, 0, <<>>), s)
    [] e.e = "end" -> If(None(e.o), s)
    [] OTHER -> {}
Gen(s, e) ==
  CASE e.e = "gen" -> If(e.r = "CLOSED" /\ e.k = e.n /\ e.good /\ StatsAre(e, 0, <<>>), s)
    [] e.e = "end" -> If(None(e.o), s)
    [] OTHER -> {}
\* so many fit in line of a worker; beyond, those that wait for room are in no order
Ring == 16
Work(s, e) ==
  CASE e.e = "work" ->
         If(/\ e.k = e.n /\ e.good /\ (e.a = 1 => e.x = 1 /\ (e.n <= Ring => e.r = "ordered"))
            /\ Saw(e.o, Oks(e.n)) /\ StatsAre(e, 0, <<>>), s)
    [] e.e = "end" -> If(None(e.o), s)
    [] OTHER -> {}

(******************************** signals **********************************)
\* p arrivals not yet waited for, w waiting
SigInit == [kind |-> "sig", p |-> 0, w |-> 0]
SigStats(s, e) == StatsAre(e, s.w, [sigwaiters |-> s.w])
Sig(s, e) ==
  CASE e.e = "raise" ->
         LET k == Min(s.w, e.n)
             y == [s EXCEPT !.w = @ - k, !.p = @ + (e.n - k)] IN
         If(Saw(e.o, Oks(k)) /\ SigStats(y, e), y)
    [] e.e = "swait" ->
         LET k == Min(s.p, e.n)
             y == [s EXCEPT !.p = @ - k] IN
         If(e.k = k /\ e.r = (IF k = e.n THEN "OK" ELSE "TIMEDOUT") /\ None(e.o) /\ SigStats(y, e), y)
    [] e.e = "bwait" ->
         LET k == Min(s.p, e.n)
             y == [s EXCEPT !.p = @ - k, !.w = @ + (e.n - k)] IN
         If(Saw(e.o, Oks(k)) /\ SigStats(y, e), y)
    [] e.e \in {"cancel", "end"} ->
         LET y == [s EXCEPT !.w = @ - e.n] IN
         If(e.n <= s.w /\ (e.e = "end" => y.w = 0) /\ Saw(e.o, Cans(e.n)) /\ SigStats(y, e), y)
    [] OTHER -> {}

(********************************* select **********************************)
\* e.a channels of capacity 1. F: those with a message, C: closed, w waiting
SelInit(e) == [kind |-> "select", N |-> e.a, F |-> {}, C |-> {}, w |-> 0, l |-> <<>>, c |-> <<>>]
SelStats(s, e) == StatsAre(e, s.w, [receivers |-> s.w])
Sel(s, e) ==
  CASE e.e = "send" ->
         IF e.a \in s.C THEN If(e.r = "CLOSED" /\ None(e.o) /\ SelStats(s, e), s)
         ELSE IF s.w > 0 THEN
           LET y == [s EXCEPT !.w = @ - 1] IN If(e.r = "OK" /\ Saw(e.o, Oks(1)) /\ e.o.msg = e.a /\ SelStats(y, e), y)
         ELSE IF e.a \in s.F THEN If(e.r = "TIMEDOUT" /\ None(e.o) /\ SelStats(s, e), s)
         ELSE LET y == [s EXCEPT !.F = @ \cup {e.a}] IN If(e.r = "OK" /\ None(e.o) /\ SelStats(y, e), y)
    [] e.e = "sel" ->
         LET y == [s EXCEPT !.F = @ \ {e.x}] IN
         If(/\ IF s.F \cup s.C = {} THEN e.r = "NONE"
               ELSE e.r = (IF e.x \in s.F THEN "OK" ELSE IF e.x \in s.C THEN "CLOSED" ELSE "nothing")
            /\ e.good /\ None(e.o) /\ SelStats(y, e), y)
    [] e.e = "selected" -> { [s EXCEPT !.l = e.l, !.c = e.c] }
    [] e.e = "bsel" ->
         LET k == Len(s.l)
             y == [s EXCEPT !.F = @ \ Set(s.l), !.w = @ + (e.n - k - Len(s.c))] IN
         If(/\ Set(s.l) \subseteq s.F /\ Cardinality(Set(s.l)) = k
            /\ Set(s.c) \subseteq s.C /\ (Set(s.c) \cap s.F) \subseteq Set(s.l)
            /\ IF s.C = {} THEN k = Min(e.n, Cardinality(s.F)) ELSE k + Len(s.c) = e.n
            /\ Saw(e.o, [Oks(k) EXCEPT !.cl = Len(s.c)]) /\ SelStats(y, e), y)
    [] e.e = "close" ->
         LET y == [s EXCEPT !.C = @ \cup {e.a}, !.w = 0] IN
         IF e.a \in s.C THEN If(e.r = "CLOSED" /\ None(e.o) /\ SelStats(s, e), s)
         ELSE If(e.r = "OK" /\ Saw(e.o, Cls(s.w)) /\ SelStats(y, e), y)
    [] e.e \in {"cancel", "end"} ->
         LET y == [s EXCEPT !.w = @ - e.n] IN
         If(e.n <= s.w /\ (e.e = "end" => y.w = 0) /\ Saw(e.o, Cans(e.n)) /\ SelStats(y, e), y)
    [] OTHER -> {}

\* nobody waits for what is there
Sane(s) ==
  CASE s.kind = "chan" -> /\ 0 <= s.hi - s.lo /\ s.hi - s.lo <= s.cap /\ s.sw >= 0
                          /\ s.rq # <<>> => s.lo = s.hi /\ s.sw = 0 /\ ~s.cls
                          /\ s.sw > 0 => s.hi - s.lo = s.cap
    [] s.kind = "rw" -> (s.q # <<>> => s.h > 0) /\ (s.m = "w" => s.h = 1) /\ (s.h = 0 <=> s.m = "-")
    [] s.kind = "wg" -> s.c >= 0 /\ (s.w > 0 => s.c > 0)
    [] s.kind = "sig" -> s.p = 0 \/ s.w = 0
    [] s.kind = "select" -> s.w > 0 => s.F = {} /\ s.C = {}
    [] s.kind = "fd" -> s.W \cap s.B = {}
    [] OTHER -> TRUE

Idle == [kind |-> "idle"]
InitOf(e) ==
  CASE e.kind = "chan" -> ChanInit(e) [] e.kind = "rw" -> RwInit [] e.kind = "wg" -> WgInit [] e.kind = "cond" -> CondInit
    [] e.kind = "join" -> JoinInit [] e.kind = "cancel" -> CancelInit [] e.kind = "susp" -> SuspInit [] e.kind = "start" -> StartInit
    [] e.kind = "sleep" -> SleepInit [] e.kind = "fd" -> FdInit [] e.kind = "sig" -> SigInit [] e.kind = "select" -> SelInit(e)
    [] OTHER -> OneInit(e.kind)
StepOf(s, e) ==
  CASE e.e = "reset" -> { InitOf(e) }
    [] e.e = "done" -> If(e.r = "OK", Idle)
    [] e.e # "reset" /\ e.e # "done" ->
       CASE s.kind = "chan" -> Chan(s, e) [] s.kind = "rw" -> Rw(s, e) [] s.kind = "wg" -> Wg(s, e) [] s.kind = "cond" -> Cond(s, e)
         [] s.kind = "join" -> Join(s, e) [] s.kind = "cancel" -> Cancel(s, e) [] s.kind = "susp" -> Susp(s, e)
         [] s.kind = "start" -> Start(s, e) [] s.kind = "sleep" -> Sleep(s, e) [] s.kind = "fd" -> Fd(s, e)
         [] s.kind = "sig" -> Sig(s, e) [] s.kind = "select" -> Sel(s, e) [] s.kind = "clean" -> Clean(s, e)
         [] s.kind = "gen" -> Gen(s, e) [] s.kind = "work" -> Work(s, e)
         [] OTHER -> {}
=============================================================================
