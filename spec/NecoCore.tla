------------------------------ MODULE NecoCore ------------------------------
(***************************************************************************)
(* The API-level specification of the neco coroutine runtime: coroutines,  *)
(* scheduling-independent semantics of every blocking and non-blocking     *)
(* operation, deadlines, cancelation, cleanup handlers and signals.        *)
(*                                                                         *)
(* The whole system state is one record; every operation is a pure         *)
(* function from a state to the SET of allowed successor states. The same  *)
(* functions are used                                                      *)
(*   - by MCCore.tla: exhaustive model checking of the properties,         *)
(*   - by TraceCore.tla: validation of traces recorded from the real code. *)
(*                                                                         *)
(* An operation has a Call event and a Ret event. Its effect on shared     *)
(* objects is atomic at the Call (coroutines are never preempted); after   *)
(* that the coroutine is "gr" (granted: the result is fixed) or "bl"       *)
(* (blocked: registered with some object). A blocked operation is          *)
(* completed by the call of another coroutine, or else it withdraws with   *)
(* TIMEDOUT or CANCELED at the moment its coroutine runs again.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

INF == -1                \* "no deadline"
SLACK == 1001000         \* tolerated lateness of the idle sleep (ns)

Range1(q) == { q[i] : i \in 1..Len(q) }
RemoveIf(q, P(_)) == LET KeepIt(e) == ~P(e) IN SelectSeq(q, KeepIt)

(***************************** initial objects *****************************)
CoFree == [st |-> "free", op |-> "none", ph |-> "none", x |-> 0, m |-> 0,
           r |-> "OK", i |-> 0, v |-> 0, dl |-> INF, wt |-> FALSE,
           can |-> FALSE, cen |-> TRUE, asy |-> FALSE,
           cl |-> <<>>, cup |-> FALSE, hact |-> FALSE, pex |-> 0,
           gen |-> 0, par |-> 0, last |-> 0, sw |-> {}, xs |-> <<>>]
ChFree(cap) == [cap |-> cap, buf |-> <<>>, snd |-> <<>>, rcv |-> <<>>, cls |-> FALSE]
MuFree == [w |-> FALSE, r |-> 0, q |-> <<>>]
WgFree == [n |-> 0, q |-> <<>>]

\* id 0 stands for an id that names no (or no longer a) coroutine
Alive(s, c) == c # 0 /\ s.co[c].st \in {"born", "user", "op"}
Expired(d, t) == d # INF /\ d <= t

(************************ completing an operation **************************)
\* The operation of c (blocked or in its call) has its result fixed.
Grant(s, c, r, i, v) ==
  [s EXCEPT !.co[c].ph = "gr", !.co[c].r = r, !.co[c].i = i, !.co[c].v = v]
Ok(s, c) == Grant(s, c, "OK", 0, 0)
Err(s, c, r) == Grant(s, c, r, 0, 0)
\* the pending cancel is consumed by this operation
TakeCancel(s, c) == Err([s EXCEPT !.co[c].can = FALSE], c, "CANCELED")
Block(s, c) == [s EXCEPT !.co[c].ph = "bl", !.co[c].wt = TRUE]

RECURSIVE GrantAll(_, _, _)
GrantAll(s, q, r) ==
  IF q = <<>> THEN s ELSE GrantAll(Err(s, Head(q), r), Tail(q), r)

(******************************* channels **********************************)
\* Remove every queue entry of c from all channels (select sits in several).
DropCh(s, c) ==
  LET P(e) == e.c = c IN
  [s EXCEPT !.ch = [x \in DOMAIN s.ch |->
     IF \E i \in 1..Len(s.ch[x].rcv) : s.ch[x].rcv[i].c = c
     THEN [s.ch[x] EXCEPT !.rcv = RemoveIf(@, P)]
     ELSE IF \E i \in 1..Len(s.ch[x].snd) : s.ch[x].snd[i].c = c
     THEN [s.ch[x] EXCEPT !.snd = RemoveIf(@, P)]
     ELSE s.ch[x]]]

\* Hand message v of channel x to the receiver entry e.
Deliver(s, x, e, v) == Grant(DropCh(s, e.c), e.c, "OK", e.i, v)

Drained(s, x) == s.ch[x].cls /\ s.ch[x].buf = <<>> /\ s.ch[x].snd = <<>>
Avail(s, x) == s.ch[x].buf # <<>> \/ s.ch[x].snd # <<>>

\* Take the first message; the oldest blocked sender moves up and completes.
\* Yields [s, v].
Take(s, x) ==
  LET h == s.ch[x] IN
  IF h.buf # <<>> THEN
    IF h.snd # <<>> THEN
      [v |-> Head(h.buf),
       s |-> Ok([s EXCEPT !.ch[x].buf = Append(Tail(h.buf), Head(h.snd).v),
                          !.ch[x].snd = Tail(h.snd)], Head(h.snd).c)]
    ELSE [v |-> Head(h.buf), s |-> [s EXCEPT !.ch[x].buf = Tail(h.buf)]]
  ELSE [v |-> Head(h.snd).v,
        s |-> Ok([s EXCEPT !.ch[x].snd = Tail(h.snd)], Head(h.snd).c)]

Send(s, c, x, v) ==
  LET h == s.ch[x] IN
  IF h.cls THEN Err(s, c, "CLOSED")
  ELSE IF s.co[c].can THEN TakeCancel(s, c)
  ELSE IF h.rcv # <<>> THEN Ok(Deliver(s, x, Head(h.rcv), v), c)
  ELSE IF Len(h.buf) < h.cap THEN Ok([s EXCEPT !.ch[x].buf = Append(h.buf, v)], c)
  ELSE Block([s EXCEPT !.ch[x].snd = Append(h.snd, [c |-> c, v |-> v])], c)

RECURSIVE BcastAll(_, _, _, _)
BcastAll(s, x, v, n) ==
  IF s.ch[x].rcv = <<>> THEN [s |-> s, n |-> n]
  ELSE BcastAll(Deliver(s, x, Head(s.ch[x].rcv), v), x, v, n + 1)
Bcast(s, c, x, v) ==
  IF s.ch[x].cls THEN Err(s, c, "CLOSED")
  ELSE LET b == BcastAll(s, x, v, 0) IN Grant(b.s, c, "OK", b.n, 0)

Recv(s, c, x, try) ==
  IF Drained(s, x) THEN Err(s, c, "CLOSED")
  ELSE IF s.co[c].can THEN TakeCancel(s, c)
  ELSE IF Avail(s, x) THEN LET k == Take(s, x) IN Grant(k.s, c, "OK", 0, k.v)
  ELSE IF try THEN Err(s, c, "EMPTY")
  ELSE Block([s EXCEPT !.ch[x].rcv = Append(@, [c |-> c, i |-> 0])], c)

RECURSIVE CloseAll(_, _)
CloseAll(s, x) ==
  IF s.ch[x].rcv = <<>> THEN s
  ELSE LET e == Head(s.ch[x].rcv) IN
       CloseAll(Grant(DropCh(s, e.c), e.c, "CLOSED", e.i, 0), x)
CloseCh(s, x) ==
  IF s.ch[x].cls THEN s
  ELSE LET z == [s EXCEPT !.ch[x].cls = TRUE] IN
       IF Avail(z, x) THEN z ELSE CloseAll(z, x)

RECURSIVE PushSel(_, _, _, _)
PushSel(s, c, xs, i) ==
  IF i > Len(xs) THEN s
  ELSE PushSel([s EXCEPT !.ch[xs[i]].rcv = Append(@, [c |-> c, i |-> i - 1])], c, xs, i + 1)
\* any ready channel may be chosen
SelectSet(s, c, xs, try) ==
  LET ready == { i \in 1..Len(xs) : Avail(s, xs[i]) \/ Drained(s, xs[i]) } IN
  IF s.co[c].can THEN { TakeCancel(s, c) }
  ELSE IF ready # {} THEN
    { LET x == xs[i] IN
      IF Avail(s, x) THEN LET k == Take(s, x) IN Grant(k.s, c, "OK", i - 1, k.v)
      ELSE Grant(s, c, "CLOSED", i - 1, 0) : i \in ready }
  ELSE IF try THEN { Err(s, c, "EMPTY") }
  ELSE { Block(PushSel(s, c, xs, 1), c) }

(******************************** locks ************************************)
RECURSIVE HandOver(_, _)
HandOver(s, m) ==
  LET k == s.mu[m] IN
  IF k.q = <<>> THEN s
  ELSE LET e == Head(k.q)
           z == [s EXCEPT !.mu[m].q = Tail(k.q)] IN
       IF e.k = "r" THEN
         LET y == [z EXCEPT !.mu[m].r = @ + 1, !.co[e.c].ph = "gr"] IN
         IF Tail(k.q) # <<>> /\ Head(Tail(k.q)).k = "r" THEN HandOver(y, m) ELSE y
       ELSE [z EXCEPT !.mu[m].w = TRUE, !.co[e.c].ph = "gr"]
\* the result a lock waiter will report is already stored in .r ("OK", or
\* the outcome of the cond wait that relocks)
Release(s, m) ==
  LET k == s.mu[m] IN
  IF ~k.w /\ k.r = 0 THEN s
  ELSE IF k.r > 1 THEN [s EXCEPT !.mu[m].r = @ - 1]
  ELSE HandOver([s EXCEPT !.mu[m].w = FALSE, !.mu[m].r = 0], m)

CheckDl(s, c, d, t) == IF s.co[c].can THEN "C" ELSE IF Expired(d, t) THEN "T" ELSE "-"

CanW(s, m) == ~s.mu[m].w /\ s.mu[m].r = 0
CanR(s, m) == ~s.mu[m].w /\ s.mu[m].q = <<>>
TakeW(s, m) == [s EXCEPT !.mu[m].w = TRUE]
TakeR(s, m) == [s EXCEPT !.mu[m].r = @ + 1]
Enq(s, c, m, k, r) ==
  Block([s EXCEPT !.mu[m].q = Append(@, [c |-> c, k |-> k]), !.co[c].r = r,
                  !.co[c].i = 0, !.co[c].v = 0], c)
Lock(s, c, m, d, t) ==
  CASE CheckDl(s, c, d, t) = "C" -> TakeCancel(s, c)
    [] CheckDl(s, c, d, t) = "T" -> Err(s, c, "TIMEDOUT")
    [] OTHER -> IF CanW(s, m) THEN Ok(TakeW(s, m), c) ELSE Enq(s, c, m, "w", "OK")
RdLock(s, c, m, d, t) ==
  CASE CheckDl(s, c, d, t) = "C" -> TakeCancel(s, c)
    [] CheckDl(s, c, d, t) = "T" -> Err(s, c, "TIMEDOUT")
    [] OTHER -> IF CanR(s, m) THEN Ok(TakeR(s, m), c) ELSE Enq(s, c, m, "r", "OK")

(************************** condition variables ****************************)
\* A cond waiter ends its wait with outcome r and must get the mutex again.
Relock(s, c, r) ==
  LET m == s.co[c].m
      z == [s EXCEPT !.co[c].op = "relock"] IN
  IF CanW(z, m) THEN Grant(TakeW(z, m), c, r, 0, 0)
  ELSE Enq(z, c, m, "w", r)
DropCv(s, c) ==
  LET P(e) == e = c IN
  [s EXCEPT !.cv = [x \in DOMAIN s.cv |-> RemoveIf(s.cv[x], P)]]
\* "sg": signaled, but has not run yet
Signal1(s, x) ==
  IF s.cv[x] = <<>> THEN s
  ELSE [s EXCEPT !.co[Head(s.cv[x])].ph = "sg", !.cv[x] = Tail(@)]
RECURSIVE SignalAll(_, _)
SignalAll(s, x) == IF s.cv[x] = <<>> THEN s ELSE SignalAll(Signal1(s, x), x)

(****************************** waitgroups *********************************)
WgNotify(s, x) ==
  IF s.wg[x].n = 0 THEN GrantAll([s EXCEPT !.wg[x].q = <<>>], s.wg[x].q, "OK") ELSE s

(****************************** withdrawal *********************************)
\* c leaves whatever it is blocked on
Withdraw(s, c) ==
  LET k == s.co[c]
      P(e) == e.c = c
      Q(e) == e = c IN
  CASE k.ph # "bl" -> s
    [] k.op \in {"send", "recv", "select", "gnext", "gyield"} -> DropCh(s, c)
    [] k.op \in {"lock", "rdlock"} -> [s EXCEPT !.mu[k.x].q = RemoveIf(@, P)]
    [] k.op = "cwait" -> DropCv(s, c)
    [] k.op = "wgwait" -> [s EXCEPT !.wg[k.x].q = RemoveIf(@, Q)]
    [] OTHER -> s

(******************************** exit *************************************)
\* c ends: joiners succeed, blocked cancelers find nobody, generator closes
ExitCo(s, c) ==
  LET g == s.co[c].gen
      z == [s EXCEPT !.co = [d \in DOMAIN s.co |->
              IF d = c THEN [CoFree EXCEPT !.st = "dead"]
              ELSE LET k == s.co[d] IN
                IF k.st = "op" /\ k.ph = "bl" /\ k.x = c /\ k.op = "join"
                THEN [k EXCEPT !.ph = "gr", !.r = "OK"]
                ELSE IF k.st = "op" /\ k.ph = "bl" /\ k.x = c /\ k.op = "cancel"
                THEN [k EXCEPT !.ph = "gr", !.r = "NOTFOUND"]
                ELSE k]] IN
  IF g # 0 THEN CloseCh(z, g) ELSE z

(***************************** descriptors *********************************)
\* s.io describes byte streams x: s.io.w[x][c] = [b, n, s] for the bytes that
\* coroutine c writes to x: b bytes have entered for sure, up to n more may
\* have (a write is in progress or was cut short by a termination), and s of
\* them were read. s.io.wc/rc: write/read end closed; s.io.rr/ww: streams
\* that are ready for reading/writing as last seen by poll(2).
FdReady(s, x, dir) == IF dir = 1 THEN x \in s.io.rr ELSE x \in s.io.ww
\* remember that x was ready, for those that wait for it
MarkReady(s, R, W) ==
  [s EXCEPT !.co = [c \in DOMAIN s.co |->
     LET k == s.co[c] IN
     IF k.st = "op" /\ k.op = "fdwait" /\ k.ph = "bl" /\ (IF k.m = 1 THEN k.x \in R ELSE k.x \in W)
     THEN [k EXCEPT !.v = 1] ELSE k]]
ReadySet(s, R, W) == { MarkReady([s EXCEPT !.io.rr = R, !.io.ww = W], R, W) }
\* the bytes of a read, given as runs <<writer, number of the first byte mod 32, length>>
RECURSIVE Consume(_, _, _)
Consume(s, x, runs) ==      \* a set: empty if the bytes are not the next ones
  IF runs = <<>> THEN { s }
  ELSE LET q == Head(runs)
           e == s.io.w[x][q[1]] IN
       IF q[2] = e.s % 32 /\ e.s + q[3] <= e.b + e.n
       THEN Consume([s EXCEPT !.io.w[x][q[1]].s = @ + q[3]], x, Tail(runs))
       ELSE {}
RECURSIVE RunLen(_)
RunLen(runs) == IF runs = <<>> THEN 0 ELSE Head(runs)[3] + RunLen(Tail(runs))
AllRead(s, x) == \A c \in DOMAIN s.io.w[x] : s.io.w[x][c].s >= s.io.w[x][c].b
CloseWSet(s, x) == { [s EXCEPT !.io.wc[x] = TRUE] }
CloseRSet(s, x) == { [s EXCEPT !.io.rc[x] = TRUE] }
\* a plain read(2) by the program; it made room, which a write on another thread
\* may have used up again at once
RawReadSet(s, x, runs) == { MarkReady(z, {x}, {x}) : z \in Consume(s, x, runs) }

(************************** calling an operation ***************************)
\* o is the event: o.o operation, o.x object, o.m second object, o.v value,
\* o.d deadline, o.xs channel list, o.t time of the call.
StartCo(s, c, k, par, g) ==
  [s EXCEPT !.co[k] = [CoFree EXCEPT !.st = "born", !.par = par, !.gen = g,
                                     !.cen = s.denv.cen, !.asy = s.denv.asy]]

ToUser0(s, c) == [s EXCEPT !.co[c].st = "user"]
CallSet(s0, c, o) ==
  IF s0.co[c].st # "user" \/ s0.co[c].pex # 0 THEN {} ELSE
  LET s == [s0 EXCEPT !.co[c].st = "op", !.co[c].op = o.o, !.co[c].x = o.x,
                      !.co[c].m = o.m, !.co[c].dl = o.d, !.co[c].wt = FALSE,
                      !.co[c].ph = "gr", !.co[c].r = "OK", !.co[c].i = 0, !.co[c].v = 0]
      k == s.co[c]
      t == o.t
      chk == CheckDl(s, c, o.d, t) IN
  CASE o.o = "yield" -> { Ok(s, c) }
    [] o.o = "start" -> { Grant([StartCo(s, c, o.x, c, o.m) EXCEPT !.co[c].last = o.x], c, "OK", o.x, 0) }
    [] o.o = "ref" -> { Ok(s, c) }                  \* retain or release a reference
    [] o.o = "bad" -> { Err(s, c, "INVAL") }        \* any call with an invalid argument
    [] o.o = "ids" -> { Grant(s, c, "OK", k.last, k.par) }
    [] o.o = "sleep" ->
         IF Expired(o.d, t) THEN { Err(s, c, "TIMEDOUT") }
         ELSE IF k.can THEN { TakeCancel(s, c) } ELSE { Block(s, c) }
    [] o.o = "join" ->
         IF ~Alive(s, o.x) THEN { Ok(s, c) }
         ELSE IF chk = "C" THEN { TakeCancel(s, c) }
         ELSE IF chk = "T" THEN { Err(s, c, "TIMEDOUT") }
         ELSE IF o.x = c THEN { Err(s, c, "PERM") }
         ELSE { Block(s, c) }
    [] o.o = "suspend" -> IF k.can THEN { TakeCancel(s, c) } ELSE { Block(s, c) }
    [] o.o = "resume" ->
         IF ~Alive(s, o.x) THEN { Err(s, c, "NOTFOUND") }
         ELSE LET j == s.co[o.x] IN
           IF o.x # c /\ j.st = "op" /\ j.op = "suspend" /\ j.ph = "bl"
           THEN { Ok(Ok(s, o.x), c) }
           ELSE IF o.x # c /\ j.st = "op" /\ j.op = "suspend" /\ j.wt
           THEN { Ok(s, c), Err(s, c, "NOTSUSPENDED") }
           ELSE { Err(s, c, "NOTSUSPENDED") }
    [] o.o = "cancel" ->
         IF ~Alive(s, o.x) THEN { Err(s, c, "NOTFOUND") }
         ELSE IF chk = "C" THEN { TakeCancel(s, c) }
         ELSE IF chk = "T" THEN { Err(s, c, "TIMEDOUT") }
         ELSE IF s.co[o.x].cen THEN { Ok([s EXCEPT !.co[o.x].can = TRUE], c) }
         ELSE { Block(s, c) }
    [] o.o = "send"  -> { Send(s, c, o.x, o.v) }
    [] o.o = "bcast" -> { Bcast(s, c, o.x, o.v) }
    [] o.o = "recv"  -> { Recv(s, c, o.x, FALSE) }
    [] o.o = "tryrecv" -> { Recv(s, c, o.x, TRUE) }
    [] o.o = "close" -> IF s.ch[o.x].cls THEN { Err(s, c, "CLOSED") } ELSE { Ok(CloseCh(s, o.x), c) }
    [] o.o = "select" -> SelectSet(s, c, o.xs, FALSE)
    [] o.o = "tryselect" -> SelectSet(s, c, o.xs, TRUE)
    [] o.o = "gyield" -> IF k.gen = 0 THEN { Err(s, c, "NOTGENERATOR") } ELSE { Send(s, c, k.gen, o.v) }
    [] o.o = "gnext" -> { Recv(s, c, o.x, FALSE) }
    [] o.o = "lock" -> { Lock(s, c, o.x, o.d, t) }
    [] o.o = "rdlock" -> { RdLock(s, c, o.x, o.d, t) }
    [] o.o = "trylock" -> IF CanW(s, o.x) THEN { Ok(TakeW(s, o.x), c) } ELSE { Err(s, c, "BUSY") }
    [] o.o = "tryrdlock" -> IF CanR(s, o.x) THEN { Ok(TakeR(s, o.x), c) } ELSE { Err(s, c, "BUSY") }
    [] o.o = "unlock" -> { Ok(Release(s, o.x), c) }
    [] o.o = "mdestroy" -> IF CanW(s, o.x) THEN { Ok(s, c) } ELSE { Err(s, c, "BUSY") }
    [] o.o = "cwait" ->
         IF k.can THEN { TakeCancel(s, c) }
         ELSE { Block([Release(s, o.m) EXCEPT !.cv[o.x] = Append(@, c)], c) }
    [] o.o = "csig" -> { Ok(Signal1(s, o.x), c) }
    [] o.o = "cbc" -> { Ok(SignalAll(s, o.x), c) }
    [] o.o = "wgadd" ->
         IF s.wg[o.x].n + o.v < 0 THEN { Err(s, c, "NEGWAITGRP") }
         ELSE { Ok(WgNotify([s EXCEPT !.wg[o.x].n = @ + o.v], o.x), c) }
    [] o.o = "wgdone" ->
         IF s.wg[o.x].n = 0 THEN { Err(s, c, "NEGWAITGRP") }
         ELSE { Ok(WgNotify([s EXCEPT !.wg[o.x].n = @ - 1], o.x), c) }
    \* a waitgroup or condition variable that nobody waits for starts anew
    [] o.o = "wgrenew" -> IF s.wg[o.x].q = <<>> THEN { Ok([s EXCEPT !.wg[o.x].n = 0], c) } ELSE {}
    [] o.o = "cvrenew" -> IF s.cv[o.x] = <<>> THEN { Ok(s, c) } ELSE {}
    [] o.o = "wgwait" ->
         IF chk = "C" THEN { TakeCancel(s, c) }
         ELSE IF chk = "T" THEN { Err(s, c, "TIMEDOUT") }
         ELSE IF s.wg[o.x].n = 0 THEN { Ok(s, c) }
         ELSE { Block([s EXCEPT !.wg[o.x].q = Append(@, c)], c) }
    [] o.o = "sigwait" ->
         IF k.sw = {} THEN { Err(s, c, "NOSIGWATCH") }
         ELSE IF k.can THEN { TakeCancel(s, c) } ELSE { Block(s, c) }
    [] o.o = "work" -> { [s EXCEPT !.co[c].ph = "wk", !.co[c].wt = TRUE,
                           !.wq[o.x] = IF o.x = 0 THEN @ ELSE Append(@, c)] }
    [] o.o = "exit" -> { Err(s, c, "NEVER") }
    [] o.o = "read" ->
         IF chk = "C" THEN { TakeCancel(s, c) }
         ELSE IF chk = "T" THEN { Err(s, c, "TIMEDOUT") }
         ELSE { Block(s, c) }
    [] o.o = "write" ->
         IF chk = "C" THEN { TakeCancel(s, c) }
         ELSE IF chk = "T" THEN { Err(s, c, "TIMEDOUT") }
         ELSE { Block([s EXCEPT !.io.w[o.x][c].n = o.m], c) }
    [] o.o = "fdwait" ->
         \* o.v = 1: the event queue may fail
         LET b == [Block(s, c) EXCEPT !.co[c].v = IF FdReady(s, o.x, o.m) THEN 1 ELSE 0] IN
         IF k.can THEN { TakeCancel(s, c) } \cup (IF o.v = 1 THEN { b } ELSE {}) ELSE { b }
    [] OTHER -> {}

\* An operation that needs memory may fail for lack of it, without any effect.
\* s.denv.nm: an allocation has failed since the last call.
MemOps == {"start", "select", "tryselect", "bad"}       \* an invalid select may fail either way
NoMemSet(s, c, o) ==
  IF s.denv.mem /\ o.o \in MemOps /\ s.co[c].st = "user" /\ s.co[c].pex = 0
  THEN { Grant([s EXCEPT !.co[c].st = "op", !.co[c].op = o.o, !.co[c].x = 0, !.co[c].dl = o.d,
                         !.co[c].wt = FALSE, !.denv.nm = FALSE], c, "NOMEM",
               IF o.o = "start" THEN s.co[c].last ELSE 0, 0) }
  ELSE {}
NoMem(s) == [s EXCEPT !.denv.nm = TRUE]
\* a channel that nobody uses is replaced by a new one
RemakeSet(s, c, x, cap) ==
  IF s.co[c].st = "user" /\ s.ch[x].rcv = <<>> /\ s.ch[x].snd = <<>>
  THEN { [s EXCEPT !.ch[x] = ChFree(cap)] } ELSE {}

(******************* instantaneous acts of a coroutine *********************)
\* a started coroutine begins to run: e.p starter, e.li its last started id,
\* e.ct/e.cs initial cancel type (async?) and state (enabled?), e.ok: the
\* arguments and the (unique) id are right
BeginSet(s, c, e) ==
  LET k == s.co[c] IN
  IF /\ k.st = "born" /\ e.p = k.par /\ e.li = 0 /\ e.ok
     /\ e.ct = k.asy /\ e.cs = k.cen
  THEN { ToUser0(s, c) } ELSE {}
InUser(s, c) == s.co[c].st = "user" /\ s.co[c].pex = 0
\* set cancel state / type; e.v new value, e.w reported old value
SetCsSet(s, c, e) ==
  IF InUser(s, c) /\ e.w = s.co[c].cen THEN { [s EXCEPT !.co[c].cen = e.v] } ELSE {}
SetCtSet(s, c, e) ==
  IF InUser(s, c) /\ e.w = s.co[c].asy THEN { [s EXCEPT !.co[c].asy = e.v] } ELSE {}
PushHSet(s, c, h) ==
  IF InUser(s, c) THEN { [s EXCEPT !.co[c].cl = Append(@, h)] } ELSE {}
PopHSet(s, c, h, ex) ==
  IF InUser(s, c) /\ s.co[c].cl # <<>> /\ Last(s.co[c].cl) = h
  THEN { [s EXCEPT !.co[c].cl = Front(@), !.co[c].pex = IF ex THEN h ELSE 0] } ELSE {}
WatchSet(s, c, g) == IF InUser(s, c) THEN { [s EXCEPT !.co[c].sw = @ \cup {g}] } ELSE {}
UnwatchSet(s, c, g) == IF InUser(s, c) THEN { [s EXCEPT !.co[c].sw = @ \ {g}] } ELSE {}
RaiseSet(s, g) == { [s EXCEPT !.sig[g] = @ + 1] }
\* background thread th begins / ends the work of coroutine c. Work pinned to
\* the same number is done in order, one at a time, by the same thread
\* (th = 0: not known, the thread was idle for long and may have been replaced).
WorkFree(s, x) == \A d \in DOMAIN s.co : ~(s.co[d].st = "op" /\ s.co[d].ph = "wr" /\ s.co[d].x = x)
WorkBeginSet(s, c, th) ==
  LET k == s.co[c] IN
  IF /\ k.st = "op" /\ k.op = "work" /\ k.ph = "wk" /\ th >= 0
     /\ (k.x # 0 => ((s.denv.wfifo => Head(s.wq[k.x]) = c) /\ WorkFree(s, k.x) /\ (s.wth[k.x] \in {0, th} \/ th = 0)))
     /\ \A d \in DOMAIN s.co : s.co[d].st = "op" /\ s.co[d].ph = "wr" => (th = 0 \/ s.co[d].v # th)
  THEN { [s EXCEPT !.co[c].ph = "wr", !.co[c].v = th,
                   !.wth[k.x] = IF k.x = 0 THEN 0 ELSE th] } ELSE {}
WorkEndSet(s, c) ==
  LET k == s.co[c] IN
  IF k.st = "op" /\ k.op = "work" /\ k.ph = "wr"
  THEN { Ok([s EXCEPT !.wq[k.x] = LET P(d) == d = c IN RemoveIf(@, P)], c) } ELSE {}

(************************ internal (silent) steps **************************)
\* a blocked canceler retries once its target has enabled cancelation
FireOk(s, c) == /\ s.co[c].st = "op" /\ s.co[c].op = "cancel" /\ s.co[c].ph = "bl"
                /\ ~s.co[c].can /\ Alive(s, s.co[c].x) /\ s.co[s.co[c].x].cen
Fire(s, c) == Ok([s EXCEPT !.co[s.co[c].x].can = TRUE], c)
\* a cond waiter runs again and asks for the mutex
InCwait(s, c) == s.co[c].st = "op" /\ s.co[c].op = "cwait"
CwSig(s, c) == InCwait(s, c) /\ s.co[c].ph = "sg"
CwCan(s, c) == InCwait(s, c) /\ s.co[c].ph = "bl" /\ s.co[c].can
CwDl(s, c, t) == InCwait(s, c) /\ s.co[c].ph = "bl" /\ ~s.co[c].can /\ Expired(s.co[c].dl, t)
Silent(s, t) ==
     { Fire(s, c) : c \in { d \in DOMAIN s.co : FireOk(s, d) } }
  \cup { Relock(s, c, "OK") : c \in { d \in DOMAIN s.co : CwSig(s, d) } }
  \cup { Relock([DropCv(s, c) EXCEPT !.co[c].can = FALSE], c, "CANCELED")
         : c \in { d \in DOMAIN s.co : CwCan(s, d) } }
  \cup { Relock(DropCv(s, c), c, "TIMEDOUT") : c \in { d \in DOMAIN s.co : CwDl(s, d, t) } }

(************************ returning from an operation **********************)
YieldOps == {"yield"}
\* operations that may be cut short by an asynchronous cancel after their effect
YieldingOps == {"yield", "unlock", "bcast", "close", "cbc", "wgadd", "wgdone", "wgwait", "cancel", "start"}
ToUser(s, c) == [s EXCEPT !.co[c].st = "user", !.co[c].op = "none", !.co[c].ph = "none",
                          !.co[c].dl = INF, !.co[c].wt = FALSE, !.co[c].x = 0, !.co[c].m = 0,
                          !.co[c].r = "OK", !.co[c].i = 0, !.co[c].v = 0]

\* returning from a descriptor operation that was not decided at its call
Written(s, c, n) == LET x == s.co[c].x IN
  [s EXCEPT !.io.w[x][c].b = @ + n, !.io.w[x][c].n = 0]
NotMore(s, c, n) == LET e == s.io.w[s.co[c].x][c] IN e.s <= e.b + n
IoRetSet(s, c, e) ==
  LET k == s.co[c]
      x == k.x
      late == Expired(k.dl, e.t) /\ ~k.can
      z(u) == IF k.op = "write" THEN Written(u, c, 0) ELSE u
      clean == k.op = "write" => NotMore(s, c, 0) IN
  CASE e.r = "TIMEDOUT" -> IF late /\ clean THEN { ToUser(z(s), c) } ELSE {}
    [] e.r = "CANCELED" -> IF k.can /\ ~k.asy /\ clean
                           THEN { ToUser([z(s) EXCEPT !.co[c].can = FALSE], c) } ELSE {}
    [] e.r = "ERROR" -> IF k.op # "fdwait" /\ (s.io.wc[x] \/ s.io.rc[x]) /\ clean
                        THEN { ToUser(z(s), c) } ELSE {}
    [] k.op = "read" /\ e.r = "OK" ->
         IF (e.i > 0 \/ k.m = 0) /\ e.i <= k.m /\ RunLen(e.runs) = e.i
         THEN { ToUser(MarkReady(y, {x}, {x}), c) : y \in Consume(s, x, e.runs) } ELSE {}
    [] k.op = "read" /\ e.r = "EOF" ->
         IF (s.io.wc[x] \/ s.io.rc[x]) /\ AllRead(s, x) THEN { ToUser(s, c) } ELSE {}
    [] k.op = "write" /\ e.r = "OK" ->
         IF e.i = k.m /\ NotMore(s, c, e.i)
         THEN { ToUser(MarkReady(Written(s, c, e.i), {}, {x}), c) } ELSE {}
    [] k.op = "write" /\ e.r = "PART" ->
         IF /\ 0 < e.i /\ e.i < k.m /\ NotMore(s, c, e.i)
            /\ Expired(k.dl, e.t) \/ k.can \/ s.io.wc[x] \/ s.io.rc[x]
         THEN { ToUser(MarkReady(Written(s, c, e.i), {}, {x}), c) } ELSE {}
    [] e.r = "EVERR" -> IF k.op = "fdwait" THEN { ToUser(s, c) } ELSE {}
    [] k.op = "fdwait" /\ e.r = "OK" -> IF k.v = 1 THEN { ToUser(s, c) } ELSE {}
    [] OTHER -> {}
IoOps == {"read", "write", "fdwait"}

\* e.r result, e.i index, e.v value, e.t time
RetSet(s, c, e) ==
  LET k == s.co[c] IN
  IF k.st # "op" THEN {}
  ELSE IF k.ph = "gr" THEN
    IF /\ e.r = k.r /\ e.i = k.i /\ e.v = k.v
       /\ ~(k.r = "CANCELED" /\ k.asy)
       /\ ~(k.op \in YieldOps /\ k.can /\ k.asy)
       /\ ~(k.op = "start" /\ k.r = "OK" /\ s.co[k.x].st = "born")
       /\ (k.r = "NOMEM" => s.denv.nm)
    THEN { ToUser(s, c) } ELSE {}
  ELSE IF k.ph = "bl" /\ k.op \in IoOps THEN IoRetSet(s, c, e)
  ELSE IF k.ph = "bl" /\ k.op \notin {"cwait", "relock"} THEN
    IF e.r = "CANCELED" /\ k.can /\ ~k.asy
    THEN { ToUser([Withdraw(s, c) EXCEPT !.co[c].can = FALSE], c) }
    ELSE IF e.r = (IF k.op = "sleep" THEN "OK" ELSE "TIMEDOUT") /\ ~k.can /\ Expired(k.dl, e.t)
    THEN { ToUser(Withdraw(s, c), c) }
    ELSE IF k.op = "sigwait" /\ e.r = "OK" /\ e.v \in k.sw /\ s.sig[e.v] > 0
    THEN { ToUser([s EXCEPT !.sig[e.v] = @ - 1], c) }
    ELSE {}
  ELSE {}

(**************** termination before the end of the function ***************)
Dying(s, c) ==
  LET k == s.co[c] IN
  /\ k.st = "op"
  /\ \/ k.op = "exit"
     \/ k.asy /\ \/ k.ph = "gr" /\ k.r = "CANCELED"
                 \/ k.ph = "bl" /\ k.can /\ k.op \notin {"cwait", "relock"}
                 \/ k.ph = "gr" /\ k.can /\ k.op \in YieldingOps
Unwind(s, c) == [ToUser(Withdraw(s, c), c) EXCEPT !.co[c].can = FALSE,
                                                  !.co[c].cup = TRUE, !.co[c].hact = FALSE]
\* cleanup handler h begins to run
HandlerSet(s, c, h) ==
  LET k == s.co[c] IN
  IF k.st = "user" /\ k.pex = h THEN { [s EXCEPT !.co[c].pex = 0] }
  ELSE LET z == IF Dying(s, c) THEN Unwind(s, c) ELSE s IN
    IF /\ Dying(s, c) \/ (k.st = "user" /\ k.cup /\ ~k.hact)
       /\ k.cl # <<>> /\ Last(k.cl) = h
    THEN { [z EXCEPT !.co[c].cl = Front(@), !.co[c].hact = TRUE] }
    ELSE {}
\* and ends (a handler that another handler's end cut short never ends)
HandlerEndSet(s, c) ==
  IF s.co[c].st = "user" THEN { [s EXCEPT !.co[c].hact = FALSE] } ELSE {}
\* the last act of a coroutine that is terminated early
AsyncExitSet(s, c) ==
  LET k == s.co[c] IN
  IF k.cl = <<>> /\ (Dying(s, c) \/ (k.st = "user" /\ k.cup /\ ~k.hact))
  THEN { ExitCo(Withdraw(s, c), c) } ELSE {}
\* the coroutine function returned
EndSet(s, c) ==
  LET k == s.co[c] IN
  IF k.st = "user" /\ ~k.cup /\ k.cl = <<>> /\ k.pex = 0 THEN { ExitCo(s, c) } ELSE {}

(******************************** idling ***********************************)
\* The scheduler may put the thread to sleep (until u) only if nobody can run:
\* everyone is blocked, without a pending cancel, deadline, or enabled step.
SigReady(s, c) == \E g \in s.co[c].sw : s.sig[g] > 0
QuietCo(s, c, u) ==
  LET k == s.co[c] IN
  \/ k.st \in {"free", "dead"}
  \/ /\ k.st = "op" /\ k.ph = "bl"
     /\ ~k.can \/ k.op = "relock"
     /\ k.dl = INF \/ k.op = "relock" \/ u <= k.dl + SLACK
     /\ ~FireOk(s, c)
     /\ ~(k.op = "sigwait" /\ SigReady(s, c))
     /\ ~(k.op = "read" /\ k.x \in s.io.rr)
     /\ ~(k.op = "write" /\ k.x \in s.io.ww)
     /\ ~(k.op = "fdwait" /\ FdReady(s, k.x, k.m))
\* The scheduler goes round and round for long: nobody can run but those whose
\* work is done by another thread (a write may be).
SpinOk(s, t) == \A c \in DOMAIN s.co :
  QuietCo(s, c, t) \/ (s.co[c].st = "op" /\ (s.co[c].op = "write" \/ s.co[c].ph \in {"wk", "wr"}))
IdleOk(s, u) == \A c \in DOMAIN s.co : QuietCo(s, c, u)

(****************************** statistics *********************************)
CountOp(s, ops) == Cardinality({ c \in DOMAIN s.co : s.co[c].st = "op" /\ s.co[c].wt /\ s.co[c].op \in ops })
Stats(s) == [ coroutines |-> Cardinality({ c \in DOMAIN s.co : Alive(s, c) }),
              sleepers |-> CountOp(s, {"sleep"}),
              senders |-> CountOp(s, {"send", "gyield"}),
              receivers |-> CountOp(s, {"recv", "select", "gnext"}),
              locked |-> CountOp(s, {"lock", "rdlock", "relock"}),
              waitgroupers |-> CountOp(s, {"wgwait"}),
              condwaiters |-> CountOp(s, {"cwait"}),
              suspended |-> CountOp(s, {"suspend"}),
              sigwaiters |-> CountOp(s, {"sigwait"}) ]
\* descriptor waiters: a read that was just ended by a cancel or deadline may
\* already have left the wait, a write may be in it or not
EvMin(s, t) == CountOp(s, {"fdwait"}) +
  Cardinality({ c \in DOMAIN s.co : s.co[c].st = "op" /\ s.co[c].wt /\ s.co[c].op = "read"
                  /\ ~s.co[c].can /\ ~Expired(s.co[c].dl, t) })
EvMax(s) == CountOp(s, {"fdwait", "read", "write"})
StatsOk(s, st, t) ==
  /\ \A f \in DOMAIN Stats(s) : st[f] = Stats(s)[f]
  /\ EvMin(s, t) <= st.evwaiters /\ st.evwaiters <= EvMax(s)
=============================================================================
