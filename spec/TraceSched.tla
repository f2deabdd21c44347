----------------------------- MODULE TraceSched ------------------------------
EXTENDS NecoSched, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
N == 6
StepSet(s, e) ==
  CASE e.e = "reset" -> IF s.cur = 0 THEN { Init0(N) } ELSE {}
    [] e.e = "done" -> IF s.cur = 0 /\ (\A c \in 1..N : s.st[c] \in {"free", "dead"}) /\ e.r = "OK" THEN { s } ELSE {}
    [] e.e = "begin" -> BeginSet(s, e.c)
    [] e.e = "start" -> StartSet(s, e.c, e.x)
    [] e.e = "yield" -> YieldSet(s, e.c)
    [] e.e = "suspend" -> SuspendSet(s, e.c)
    [] e.e = "resume" -> ResumeSet(s, e.c, e.x)
    [] e.e = "join" -> JoinSet(s, e.c, e.x)
    [] e.e = "end" -> EndSet(s, e.c)
    [] e.e = "ret" -> RetSet(s, e.c, e.r)
    [] OTHER -> {}
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = [Init0(N) EXCEPT !.cur = 0]
Next == l <= Len(Log) /\ s' \in StepSet(s, Log[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), "OF", Len(Log)>>)
            /\ TLCGet(1) = Len(Log) + 1
=============================================================================
