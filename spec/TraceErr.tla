------------------------------ MODULE TraceErr ------------------------------
(* Traces of the misc driver (mode 1) against NecoErr.                       *)
EXTENDS NecoErr, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
Step(T, e) ==
  CASE e.e = "reset" -> { T }
    [] e.e = "done" -> IF e.r = 0 /\ DOMAIN T = Codes \ {ERROR, GAIERROR} THEN { T } ELSE {}
    [] e.e = "sys" -> IF SysOk(e.errno, e.r, e.after, e.le, e.text, e.want) THEN { T } ELSE {}
    [] e.e = "from" -> IF e.r = FromSys(e.errno) /\ e.after = e.errno THEN { T } ELSE {}
    [] e.e = "to" -> IF e.after = ToSys(e.code, e.before) THEN { T } ELSE {}
    [] e.e = "text" -> TextSet(T, e.code, e.text, e.undef, e.sys)
    [] e.e = "gai" -> IF GaiOk(e.r, e.w, e.le, e.g, e.text, e.want, e.same) THEN { T } ELSE {}
    [] OTHER -> {}
VARIABLES l, T
Init == l = 1 /\ T = [x \in {} |-> ""]
Next == l <= Len(Log) /\ l' = l + 1 /\ T' \in Step(T, Log[l])
Spec == Init /\ [][Next]_<<l, T>>
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), "OF", Len(Log)>>)
            /\ TLCGet(1) = Len(Log) + 1
=============================================================================
