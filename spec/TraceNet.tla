------------------------------- MODULE TraceNet ------------------------------
EXTENDS NecoNet, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
StepSet(s, e) ==
  CASE e.e = "reset" -> { Fresh }
    [] e.e = "st" -> Begin(s, e)
    [] e.e = "call" -> Call(s, e)
    [] e.e = "ret" -> Ret(s, e)
    [] e.e = "kill" -> Kill(s, e)
    [] e.e = "fin" -> Fin(s, e)
    [] e.e = "can" -> { [s EXCEPT !.co[e.c].can = TRUE] }
    [] e.e = "flt" -> Fault(s, e)
    [] e.e = "cl" -> CloseL(s, e)
    [] e.e = "pair" -> Pair(s, e)
    [] e.e = "left" -> Left(s, e)
    [] e.e = "idle" -> IF Quiet(s, e) THEN { s } ELSE {}
    [] e.e = "done" -> Done(s, e)
    [] OTHER -> {}
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = Fresh
Next == l <= Len(Log) /\ s' \in StepSet(s, Log[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), "OF", Len(Log)>>)
            /\ TLCGet(1) = Len(Log) + 1
=============================================================================
