----------------------------- MODULE TraceStream -----------------------------
EXTENDS NecoStream, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
One(s, x, Z) == { [s EXCEPT ![x] = z] : z \in Z }
StepSet(s, e) ==
  CASE e.e = "reset" -> { [x \in 1..Len(e.caps) |-> Fresh1(e.caps[x])] }
    [] e.e = "done" -> IF e.r = "OK" /\ e.left = <<0, 0, 0>> /\ \A x \in DOMAIN s : ~s[x].open THEN { <<>> } ELSE {}
    [] e.e = "make" -> One(s, e.x, Make(s[e.x], e))
    [] e.e = "release" -> One(s, e.x, Release(s[e.x], e))
    [] e.e = "nomem" -> { [x \in DOMAIN s |-> NoMem(s[x])] }
    [] e.e = "bad" -> IF e.r = "INVAL" /\ e.le = e.r /\ e.same THEN { s } ELSE {}
    [] e.e = "rc" -> One(s, e.x, ReadCall(s[e.x], e))
    [] e.e = "rr" -> One(s, e.x, ReadRet(s[e.x], e))
    [] e.e = "unread" -> One(s, e.x, UnreadSet(s[e.x], e))
    [] e.e = "wc" -> One(s, e.x, WriteCall(s[e.x], e))
    [] e.e = "wr" -> One(s, e.x, WriteRet(s[e.x], e))
    [] e.e = "pw" -> { [s EXCEPT ![e.x].P = @ + e.n] }
    [] e.e = "pr" -> One(s, e.x, PeerRead(s[e.x], e))
    [] e.e = "pcw" -> { [s EXCEPT ![e.x].pcw = TRUE] }
    [] e.e = "pcr" -> { [s EXCEPT ![e.x].pcr = TRUE] }
    [] e.e = "cancel" -> { IF e.w THEN [s EXCEPT ![e.x].wcan = TRUE] ELSE [s EXCEPT ![e.x].rcan = TRUE] }
    [] e.e = "rfin" -> IF e.can = s[e.x].rcan THEN { [s EXCEPT ![e.x].rcan = FALSE] } ELSE {}
    [] e.e = "wfin" -> IF e.can = s[e.x].wcan THEN { [s EXCEPT ![e.x].wcan = FALSE] } ELSE {}
    [] e.e = "idle" -> IF \A x \in DOMAIN s : Quiet(s[x], x, e) THEN { s } ELSE {}
    [] OTHER -> {}
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = <<>>
Next == l <= Len(Log) /\ s' \in StepSet(s, Log[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), "OF", Len(Log)>>)
            /\ TLCGet(1) = Len(Log) + 1
=============================================================================
