------------------------------ MODULE NecoSched ------------------------------
(***************************************************************************)
(* The scheduling order of neco. One coroutine runs at a time (cur). The    *)
(* run queue (run) holds those that run in the present round; those that    *)
(* yield are collected in order (yl) for the next round, those that were    *)
(* woken from a wait (wk) join the next round too. A started coroutine runs *)
(* at once and its starter continues at the end of the present round.       *)
(*                                                                          *)
(* Only the relative order of the woken and of the yielded is left open.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE Merges(_, _)
Merges(a, b) ==
  IF a = <<>> THEN {b}
  ELSE IF b = <<>> THEN {a}
  ELSE { <<Head(a)>> \o m : m \in Merges(Tail(a), b) }
       \cup { <<Head(b)>> \o m : m \in Merges(a, Tail(b)) }

\* the running coroutine stopped: who is next
Switch(s) ==
  IF s.run # <<>> THEN { [s EXCEPT !.cur = Head(s.run), !.run = Tail(s.run)] }
  ELSE IF s.yl = <<>> /\ s.wk = <<>> THEN { [s EXCEPT !.cur = 0] }
  ELSE { [s EXCEPT !.cur = Head(m), !.run = Tail(m), !.yl = <<>>, !.wk = <<>>]
         : m \in Merges(s.yl, s.wk) }

Init0(n) == [cur |-> 1, run |-> <<>>, yl |-> <<>>, wk |-> <<>>,
             st |-> [c \in 1..n |-> IF c = 1 THEN "new" ELSE "free"],
             op |-> [c \in 1..n |-> "none"], x |-> [c \in 1..n |-> 0],
             r |-> [c \in 1..n |-> "OK"]]

Running(s, c) == s.cur = c /\ s.st[c] = "live" /\ s.op[c] = "none"
InOp(s, c, o, x, r) == [s EXCEPT !.op[c] = o, !.x[c] = x, !.r[c] = r]

BeginSet(s, c) == IF s.cur = c /\ s.st[c] = "new" THEN { [s EXCEPT !.st[c] = "live"] } ELSE {}
StartSet(s, c, x) ==
  IF Running(s, c) /\ s.st[x] = "free"
  THEN { [InOp(s, c, "start", x, "OK") EXCEPT !.run = Append(@, c), !.cur = x, !.st[x] = "new"] } ELSE {}
YieldSet(s, c) ==
  IF Running(s, c) THEN Switch([InOp(s, c, "yield", 0, "OK") EXCEPT !.yl = Append(@, c)]) ELSE {}
SuspendSet(s, c) ==
  IF Running(s, c) THEN Switch(InOp(s, c, "suspend", 0, "OK")) ELSE {}
\* resuming gives way to the resumed coroutine
ResumeSet(s, c, x) ==
  IF ~Running(s, c) THEN {}
  ELSE IF s.st[x] # "live" THEN { InOp(s, c, "resume", x, "NOTFOUND") }
  ELSE IF s.op[x] = "resumed" THEN       \* not back from its suspend yet
    { InOp(s, c, "resume", x, "OK"), InOp(s, c, "resume", x, "NOTSUSPENDED") }
  ELSE IF s.op[x] # "suspend" THEN { InOp(s, c, "resume", x, "NOTSUSPENDED") }
  ELSE Switch([InOp(s, c, "resume", x, "OK") EXCEPT !.yl = @ \o <<x, c>>, !.op[x] = "resumed"])
JoinSet(s, c, x) ==
  IF ~Running(s, c) THEN {}
  ELSE IF s.st[x] # "live" THEN { InOp(s, c, "join", x, "OK") }
  ELSE Switch(InOp(s, c, "wait", x, "OK"))
EndSet(s, c) ==
  IF ~Running(s, c) THEN {}
  ELSE LET j == { d \in DOMAIN s.st : s.op[d] = "wait" /\ s.x[d] = c }
           z == [s EXCEPT !.st[c] = "dead", !.op = [d \in DOMAIN s.op |-> IF d \in j THEN "woken" ELSE s.op[d]]] IN
       UNION { Switch([z EXCEPT !.wk = @ \o q]) : q \in SetToSeqs(j) }
RetSet(s, c, r) ==
  IF s.cur = c /\ s.op[c] \notin {"none", "suspend", "wait"} /\ s.r[c] = r
  THEN { [s EXCEPT !.op[c] = "none"] } ELSE {}

\* can run: is in a queue
Ready(s, c) == c \in ToSet(s.run) \cup ToSet(s.yl) \cup ToSet(s.wk)
=============================================================================
