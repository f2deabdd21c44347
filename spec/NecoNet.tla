------------------------------- MODULE NecoNet -------------------------------
(***************************************************************************)
(* Serving, dialing, accepting, name lookups and pipes.                     *)
(*   co    the coroutines: what each is doing, whether a cancel is pending  *)
(*         for it, the failure (errno) that its operation has met           *)
(*   lis   listeners: open, and the number of attempts to connect that      *)
(*         ended in an error (each may leave an orphan in the queue)        *)
(*   dial  the connections made by dial or connect: the listener and        *)
(*         whether the other end was handed out                             *)
(*   acc   accepted connections: the listener, and whether identified       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
INF == -1
SLACK == 1001000
Expired(d, t) == d # INF /\ d <= t
SeqRange(q) == { q[i] : i \in 1..Len(q) }

NoOp == [o |-> "none", k |-> "", x |-> 0, m |-> "no", d |-> INF]
Fresh == [co |-> <<>>, lis |-> <<>>, dial |-> <<>>, acc |-> <<>>, fin |-> 0]

Begin(s, e) ==        \* coroutines are numbered in the order of their start
  IF e.c = Len(s.co) + 1
  THEN { [s EXCEPT !.co = Append(@, [op |-> NoOp, can |-> FALSE, async |-> e.as, early |-> FALSE, flt |-> 0,
                                      fctl |-> FALSE, fmem |-> FALSE, live |-> TRUE, was |-> FALSE])] }
  ELSE {}

\* operations that wait, and so report a cancel or a deadline
Waits(op) == op.k # "inval" /\ op.o # "nb" /\ (op.o # "serve" \/ op.k \notin {"unix", "unixused"})
Call(s, e) ==
  LET c == s.co[e.c] IN
  IF ~c.live \/ c.op.o # "none" THEN {}
  ELSE { [s EXCEPT !.co[e.c] = [c EXCEPT !.op = [o |-> e.o, k |-> e.k, x |-> e.x, m |-> e.m, d |-> e.d],
                                          !.early = c.can, !.flt = 0, !.fctl = FALSE, !.fmem = FALSE,
                                          !.was = e.x # 0 /\ s.lis[e.x].open]] }
Conv(no) == CASE no = 22 -> "INVAL" [] no = 1 -> "PERM" [] no = 12 -> "NOMEM" [] no = 125 -> "CANCELED"
              [] no = 110 -> "TIMEDOUT" [] OTHER -> "ERROR"
\* the system call failed with this error
Failed(e, nos) == e.no \in nos /\ e.r = Conv(e.no)
Refused == {111, 104}

\* the results that the target of the operation allows (no cancel, deadline or injected failure)
Natural(s, c, e) ==
  LET op == c.op  L == op.x  gone == L # 0 /\ ~s.lis[L].open IN
  CASE op.k = "inval" -> IF op.o = "pipe" THEN Failed(e, {22}) ELSE e.r = "INVAL"
    [] op.o \in {"dial", "connect"} /\ op.k = "lis" ->
         \/ e.r = "OK" /\ c.was
         \/ gone /\ op.m \notin {"first"} /\ Failed(e, Refused \cup {2})
    [] op.k = "refused" -> Failed(e, {111})
    [] op.k = "noent" -> Failed(e, {2})
    [] op.k = "full" -> FALSE
    [] op.k = "fullun" -> Failed(e, {111})
    [] op.k = "gai" -> e.r = "GAIERROR"
    [] op.k = "mem" -> e.r = "NOMEM"
    [] op.k = "sys" -> Failed(e, {5})
    [] op.k = "name" -> e.r = "OK"
    [] op.k \in {"unixused", "tcpused"} -> Failed(e, {98})
    [] op.k = "isconn" -> Failed(e, {106})
    [] op.k = "isconnun" -> Failed(e, {106, 111, 2, 22})     \* the listener may be gone
    [] op.k \in {"badfd", "nbbad"} -> Failed(e, {9})
    [] op.k = "notlis" -> Failed(e, {22})
    [] op.k = "nb" -> e.r = "OK"
    [] op.o = "accept" -> e.r = "OK"
    [] op.o = "serve" -> e.r = "OK"
    [] op.k = "pipe" -> e.r = "OK"
    [] OTHER -> FALSE
LastErr(op, e) ==
  CASE op.o = "gai" /\ e.r = "NOMEM" -> e.le = "GAIERROR" \/ e.le = "NOMEM"
    [] OTHER -> e.le = e.r
Alive(s) == Cardinality({ i \in DOMAIN s.co : s.co[i].live }) + 1
\* a pipe that is being made may have a helper; one that is made has none
Helpers(s, c) == Cardinality({ i \in DOMAIN s.co : i # c /\ s.co[i].op.o = "pipe" })
Ok(s, e) ==          \* what a success leaves behind
  LET op == s.co[e.c].op IN
  CASE op.o = "serve" -> IF e.f = Len(s.lis) + 1
         THEN { [s EXCEPT !.lis = Append(@, [open |-> TRUE, bad |-> 0, lost |-> 0])] } ELSE {}
    [] op.o \in {"dial", "connect"} /\ op.x # 0 ->
         IF e.f \in DOMAIN s.dial THEN {} ELSE
         { [s EXCEPT !.dial = [i \in DOMAIN @ \cup {e.f} |-> IF i = e.f THEN [x |-> op.x, got |-> FALSE] ELSE @[i]]] }
    [] op.o = "accept" -> IF e.f = Len(s.acc) + 1 THEN { [s EXCEPT !.acc = Append(@, [x |-> op.x, id |-> FALSE])] } ELSE {}
    [] OTHER -> { s }
Bad(s, op) == IF op.x = 0 THEN s
              ELSE IF op.o \in {"dial", "connect"} THEN [s EXCEPT !.lis[op.x].bad = @ + 1]
              ELSE s
\* a connection that was accepted but could not be made non-blocking is dropped
Drop(s, op, c) == IF op.o = "accept" /\ c.fctl THEN [s EXCEPT !.lis[op.x].lost = @ + 1] ELSE s
Ret(s, e) ==
  LET c == s.co[e.c]  op == c.op
      ended == [s EXCEPT !.co[e.c].op = NoOp]
      unread == [ended EXCEPT !.co[e.c].can = FALSE]
      late == Expired(op.d, e.t)
      nat == Natural(s, c, e)
      met == c.flt # 0
      \* with a pending cancel or past deadline the operation does not start
      must == Waits(op) /\ (c.early \/ op.d = 0) IN
  IF op.o = "none" \/ ~LastErr(op, e) \/ ~e.good \/ e.nco \notin Alive(s)..(Alive(s) + Helpers(s, e.c)) THEN {}
  ELSE (IF /\ ~must \/ met \/ c.fmem
           /\ \/ nat /\ ~met
              \/ nat /\ op.m # "no" /\ op.o = "dial"    \* another address
              \/ met /\ e.r # "OK" /\ (Failed(e, {c.flt}) \/ (op.m # "no" /\ Failed(e, {c.flt, 111, 2})))
              \/ c.fmem /\ (e.r = "NOMEM" \/ (nat /\ ~met) \/ (op.o = "pipe" /\ e.r # "OK"))
        THEN IF e.r = "OK" THEN { [z EXCEPT !.co[e.c].op = NoOp] : z \in Ok(s, e) }
             ELSE { Drop(Bad(ended, op), op, c) }
        ELSE {})
       \cup (IF e.r = "CANCELED" /\ c.can /\ Waits(op) /\ ~c.async THEN { Bad(unread, op) } ELSE {})
       \cup (IF e.r = "TIMEDOUT" /\ late /\ Waits(op) /\ ~c.early THEN { Bad(ended, op) } ELSE {})
Kill(s, e) ==
  LET c == s.co[e.c] IN
  IF c.live /\ c.can /\ c.async THEN { Bad([s EXCEPT !.co[e.c] = [c EXCEPT !.live = FALSE, !.op = NoOp, !.can = FALSE]], c.op) }
  ELSE {}
Fin(s, e) ==
  LET c == s.co[e.c] IN
  IF c.op.o = "fin" /\ e.can = c.can THEN { [s EXCEPT !.co[e.c] = [c EXCEPT !.live = FALSE, !.op = NoOp, !.can = FALSE]] } ELSE {}
Fault(s, e) ==
  IF e.w = "mem" THEN { [s EXCEPT !.co[e.c].fmem = TRUE] } ELSE { [s EXCEPT !.co[e.c].flt = e.no, !.co[e.c].fctl = (e.w = "fcntl")] }
CloseL(s, e) == IF s.lis[e.x].open THEN { [s EXCEPT !.lis[e.x].open = FALSE] } ELSE {}

(* The runtime goes to sleep: nobody can proceed *)
Quiet(s, e) ==
  \A i \in DOMAIN s.co :
    LET c == s.co[i]  op == c.op IN
    \/ op.o = "none"
    \/ /\ ~c.can /\ (op.d = INF \/ e.u <= op.d + SLACK)
       /\ CASE op.o = "accept" -> op.x \notin SeqRange(e.lr)
            [] op.o = "fin" -> TRUE
            [] op.o = "pipe" -> c.flt # 0 \/ c.fmem
            [] OTHER -> i \notin SeqRange(e.cr)

(* At the end: who is connected to whom *)
Pair(s, e) ==
  LET a == s.acc[e.a] IN
  IF a.id \/ ~e.ok THEN {}
  ELSE IF e.d = 0 THEN         \* left over from an attempt that failed
    IF s.lis[a.x].bad > 0 THEN { [s EXCEPT !.acc[e.a].id = TRUE, !.lis[a.x].bad = @ - 1] } ELSE {}
  ELSE IF e.d \in DOMAIN s.dial /\ ~s.dial[e.d].got /\ s.dial[e.d].x = a.x
  THEN { [s EXCEPT !.acc[e.a].id = TRUE, !.dial[e.d].got = TRUE] } ELSE {}
Left(s, e) ==
  IF e.d = 0 THEN IF s.lis[e.x].bad > 0 THEN { [s EXCEPT !.lis[e.x].bad = @ - 1] } ELSE {}
  ELSE IF e.d \in DOMAIN s.dial /\ ~s.dial[e.d].got /\ s.dial[e.d].x = e.x
  THEN { [s EXCEPT !.dial[e.d].got = TRUE] } ELSE {}
Done(s, e) ==
  IF /\ e.r = "OK" /\ e.fds = 0 /\ e.ai = 0 /\ e.mem = 0 /\ e.th = 0 /\ e.so = 0
     /\ \A i \in DOMAIN s.co : ~s.co[i].live
     /\ \A i \in DOMAIN s.acc : s.acc[i].id
     \* the other end was handed out, or still waited in the queue when its listener was closed
     /\ \A x \in DOMAIN s.lis : s.lis[x].open =>
          Cardinality({ i \in DOMAIN s.dial : s.dial[i].x = x /\ ~s.dial[i].got }) <= s.lis[x].lost
  THEN { Fresh } ELSE {}
=============================================================================
