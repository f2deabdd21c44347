------------------------------ MODULE TraceBulk ------------------------------
(* Traces of the bulk driver against NecoBulk.                               *)
EXTENDS NecoBulk, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
Init == l = 1 /\ s = Idle
Next == l <= Len(Log) /\ l' = l + 1 /\ s' \in StepOf(s, Log[l]) /\ Sane(s')
Spec == Init /\ [][Next]_<<l, s>>
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), "OF", Len(Log)>>)
            /\ TLCGet(1) = Len(Log) + 1
=============================================================================
