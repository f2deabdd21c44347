------------------------------ MODULE TraceTwin ------------------------------
(* Two runs of the same programs: the events have to be the same.           *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
A == ndJsonDeserialize(IOEnv.TRACE)
B == ndJsonDeserialize(IOEnv.TRACE2)
VARIABLE l
Init == l = 1
Next == l <= Len(A) /\ l <= Len(B) /\ A[l] = B[l] /\ l' = l + 1
Spec == Init /\ [][Next]_l
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == /\ PrintT(<<"REACHED", IF Len(A) = Len(B) THEN TLCGet(1) ELSE 0, "OF", Len(A)>>)
            /\ TLCGet(1) = Len(A) + 1 /\ Len(A) = Len(B)
=============================================================================
