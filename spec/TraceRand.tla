------------------------------ MODULE TraceRand ------------------------------
(* Traces of the misc driver (mode 0) against NecoRand.                      *)
EXTENDS NecoRand, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
Step(w, m, e) ==
  CASE e.e = "reset" -> { <<w, Rt0>> }
    [] e.e = "done" -> IF DOMAIN m.co = {} /\ e.r = "OK" THEN { <<w, m>> } ELSE {}
    [] e.e = "begin" -> BeginSet(w, m, e.c, e.asy)
    [] e.e = "seed" -> SeedSet(w, m, e.s, e.want, e.old, e.r)
    [] e.e = "call" -> CallSet(w, m, e.c, e.kind, e.parts, e.r, e.late, e.fresh)
    [] e.e = "ret" -> RetSet(w, m, e.c, e.r, e.le, e.over)
    [] e.e = "cancel" -> CancelSet(w, m, e.x)
    [] e.e = "canceled" -> { <<w, m>> }
    [] e.e = "end" -> EndSet(w, m, e.c)
    [] e.e = "exit" -> ExitSet(w, m, e.c)
    [] OTHER -> {}
VARIABLES l, w, m
Init == l = 1 /\ w = World0 /\ m = Rt0
Event == l <= Len(Log) /\ l' = l + 1 /\ \E s \in Step(w, m, Log[l]) : w' = s[1] /\ m' = s[2]
Take == l' = l /\ \E c \in DOMAIN m.co : \E s \in TakeSet(w, m, c) : w' = s[1] /\ m' = s[2]
Next == Event \/ Take
Spec == Init /\ [][Next]_<<l, w, m>>
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), "OF", Len(Log)>>)
            /\ TLCGet(1) = Len(Log) + 1
=============================================================================
