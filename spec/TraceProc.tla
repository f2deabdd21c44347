------------------------------ MODULE TraceProc ------------------------------
EXTENDS NecoProc, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = Fresh([mode |-> 0])
Next == /\ l <= Len(Log)
        /\ \/ s' \in StepSet(s, Log[l]) /\ l' = l + 1
           \/ l > 1 /\ s' \in Silent(s, Log[l].t) /\ l' = l
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), "OF", Len(Log)>>)
            /\ TLCGet(1) = Len(Log) + 1
=============================================================================
