------------------------------ MODULE TraceStack ------------------------------
(* Traces of the stk driver against NecoStack.                               *)
EXTENDS NecoStack, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
None == [c \in {} |-> NoCo]
Step(m, e) ==
  CASE e.e = "begin" -> IF e.ok THEN BeginSet(m, e.c, e.lo, e.hi) ELSE {}
    [] e.e = "push" -> PushSet(m, e.c, e.v, e.lo, e.hi)
    [] e.e = "pop" -> PopSet(m, e.c)
    [] e.e = "read" -> IF e.own THEN ReadSet(m, e.c, e.k, e.v) ELSE {}
    [] e.e = "switched" -> SwitchedSet(m, e.c, e.regs)
    [] e.e = "end" -> EndSet(m, e.c)
    [] e.e \in {"reset", "done"} -> IF DOMAIN m = {} THEN { m } ELSE {}
    [] OTHER -> {}
VARIABLES l, m
Init == l = 1 /\ m = None
Next == l <= Len(Log) /\ l' = l + 1 /\ m' \in Step(m, Log[l])
Spec == Init /\ [][Next]_<<l, m>>
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), "OF", Len(Log)>>)
            /\ TLCGet(1) = Len(Log) + 1
=============================================================================
