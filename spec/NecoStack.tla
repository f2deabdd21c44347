------------------------------ MODULE NecoStack ------------------------------
(***************************************************************************)
(* The private memory of coroutines: each live coroutine owns a range of    *)
(* pages for its stack, ranges of live coroutines are disjoint, call frames *)
(* hold the value that was put there until they are popped, and a switch    *)
(* keeps the registers that belong to the caller.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* m: live coroutine -> [lo, hi, f]: its stack's pages and its call frames (the
\* newest first), each [v, lo, hi]
NoCo == [lo |-> 0, hi |-> -1, f |-> <<>>]
Apart(a, b) == a.hi < b.lo \/ b.hi < a.lo

BeginSet(m, c, lo, hi) ==
  IF /\ c \notin DOMAIN m /\ 0 <= lo /\ lo <= hi
     /\ \A d \in DOMAIN m : Apart([lo |-> lo, hi |-> hi], m[d])
  THEN { [d \in DOMAIN m \cup {c} |-> IF d = c THEN [lo |-> lo, hi |-> hi, f |-> <<>>] ELSE m[d]] }
  ELSE {}
PushSet(m, c, v, lo, hi) ==
  IF /\ c \in DOMAIN m /\ m[c].lo <= lo /\ lo <= hi /\ hi <= m[c].hi
     /\ \A i \in 1..Len(m[c].f) : hi <= m[c].f[i].lo
  THEN { [m EXCEPT ![c].f = <<[v |-> v, lo |-> lo, hi |-> hi]>> \o @] } ELSE {}
PopSet(m, c) ==
  IF c \in DOMAIN m /\ m[c].f # <<>> THEN { [m EXCEPT ![c].f = Tail(@)] } ELSE {}
ReadSet(m, c, k, v) ==
  IF c \in DOMAIN m /\ k < Len(m[c].f) /\ m[c].f[k + 1].v = v THEN { m } ELSE {}
SwitchedSet(m, c, regs) == IF c \in DOMAIN m /\ regs = 0 THEN { m } ELSE {}
\* the end may come at any depth
EndSet(m, c) == IF c \in DOMAIN m THEN { [d \in DOMAIN m \ {c} |-> m[d]] } ELSE {}
=============================================================================
