------------------------------ MODULE TraceCore ------------------------------
(***************************************************************************)
(* Validation of traces recorded from the real implementation against      *)
(* NecoCore. A trace is a sequence of events (one JSON object per line) of *)
(* many independent program runs, separated by "reset" events. The trace   *)
(* is a behaviour of the specification iff the end of it can be reached    *)
(* with every event explained by an enabled action of the specification,   *)
(* with silent (internal) steps in between.                                *)
(***************************************************************************)
EXTENDS NecoCore, Json, IOUtils, TLC

Log == ndJsonDeserialize(IOEnv.TRACE)
NMU == 3
NCV == 2
NWG == 2
NSIG == 3
NPIN == 3

Empty == [co |-> <<>>, ch |-> <<>>, mu |-> <<>>, cv |-> <<>>, wg |-> <<>>,
          sig |-> <<>>, wq |-> <<>>, wth |-> <<>>, denv |-> [cen |-> TRUE, asy |-> TRUE, wfifo |-> TRUE, mem |-> FALSE, nm |-> FALSE], io |-> <<>>]
Fresh(e) ==
  [co |-> [c \in 1..e.nco |-> IF c = 1 THEN [CoFree EXCEPT !.st = "born", !.cen = e.cen, !.asy = e.asy]
                            ELSE CoFree],
   ch |-> [x \in 1..Len(e.caps) |-> ChFree(e.caps[x])],
   mu |-> [x \in 1..NMU |-> MuFree],
   cv |-> [x \in 1..NCV |-> <<>>],
   wg |-> [x \in 1..NWG |-> WgFree],
   sig |-> [x \in 1..NSIG |-> 0],
   wq |-> [x \in 0..NPIN |-> <<>>],
   wth |-> [x \in 0..NPIN |-> 0],
   denv |-> [cen |-> e.cen, asy |-> e.asy, wfifo |-> e.wfifo, mem |-> e.mem, nm |-> FALSE],
   io |-> IF e.nst = 0 THEN <<>>
          ELSE [w |-> [x \in 1..e.nst |-> [c \in 1..e.nco |-> [b |-> 0, n |-> 0, s |-> 0]]],
                wc |-> [x \in 1..e.nst |-> FALSE], rc |-> [x \in 1..e.nst |-> FALSE],
                rr |-> {}, ww |-> {}]]
AllDead(s) == \A c \in DOMAIN s.co : s.co[c].st \in {"free", "dead"}

StepSet(s, e) ==
  CASE e.e = "call" -> CallSet(s, e.c, e) \cup NoMemSet(s, e.c, e)
    [] e.e = "ret" -> IF e.le = e.r THEN RetSet(s, e.c, e) ELSE {}
    [] e.e = "begin" -> BeginSet(s, e.c, e)
    [] e.e = "end" -> EndSet(s, e.c)
    [] e.e = "aexit" -> AsyncExitSet(s, e.c)
    [] e.e = "hb" -> HandlerSet(s, e.c, e.h)
    [] e.e = "he" -> HandlerEndSet(s, e.c)
    [] e.e = "push" -> PushHSet(s, e.c, e.h)
    [] e.e = "pop" -> PopHSet(s, e.c, e.h, e.x)
    [] e.e = "setcs" -> SetCsSet(s, e.c, e)
    [] e.e = "setct" -> SetCtSet(s, e.c, e)
    [] e.e = "watch" -> WatchSet(s, e.c, e.g)
    [] e.e = "unwatch" -> UnwatchSet(s, e.c, e.g)
    [] e.e = "raise" -> RaiseSet(s, e.g)
    [] e.e = "wb" -> WorkBeginSet(s, e.c, e.th)
    [] e.e = "we" -> WorkEndSet(s, e.c)
    [] e.e = "stats" -> IF StatsOk(s, e.st, e.t) THEN {s} ELSE {}
    [] e.e = "ready" -> ReadySet(s, Range1(e.rr), Range1(e.ww))
    [] e.e = "closew" -> CloseWSet(s, e.x)
    [] e.e = "closer" -> CloseRSet(s, e.x)
    [] e.e = "rawread" -> RawReadSet(s, e.x, e.runs)
    [] e.e = "idle" -> IF IdleOk(s, e.u) THEN {s} ELSE {}
    [] e.e = "spin" -> IF SpinOk(s, e.t) THEN {s} ELSE {}
    [] e.e = "reset" -> IF AllDead(s) THEN { Fresh(e) } ELSE {}
    \* the runtime ended: everyone is gone and nothing is left behind (memory
    \* blocks, wrong frees or writes, mapped stacks, descriptors)
    [] e.e = "done" -> IF AllDead(s) /\ e.left = <<0, 0, 0, 0>> THEN { Empty } ELSE {}
    [] e.e = "nomem" -> { NoMem(s) }
    [] e.e = "startfail" -> IF e.r = "NOMEM" /\ e.le = e.r /\ s.denv.nm /\ s.co[1].st = "born"
                            THEN { [s EXCEPT !.co[1] = CoFree] } ELSE {}
    [] e.e = "remake" -> IF e.r = "OK" THEN RemakeSet(s, e.c, e.x, e.cap) ELSE {}
    \* an object of another runtime is used, or an operation is called from outside
    \* of a coroutine: reported as not permitted, and nothing changes
    [] e.e = "perm" -> IF e.r = "PERM" /\ e.le = e.r /\ InUser(s, e.c) THEN {s} ELSE {}
    [] e.e \in {"outside", "wouts"} -> IF e.r = "PERM" /\ e.le = e.r /\ e.same THEN {s} ELSE {}
    [] OTHER -> {}     \* anything else (crash, stuck, ...) is a violation

VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = Empty
Next ==
  /\ l <= Len(Log)
  /\ \/ /\ s' \in StepSet(s, Log[l])
        /\ l' = l + 1
     \/ /\ "t" \in DOMAIN Log[l]
        /\ s' \in Silent(s, Log[l].t)
        /\ l' = l
Spec == Init /\ [][Next]_vars

\* record how far the trace could be explained
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), "OF", Len(Log)>>)
            /\ TLCGet(1) = Len(Log) + 1
=============================================================================
