------------------------------ MODULE TraceFair ------------------------------
(***************************************************************************)
(* TraceCore plus bounded bypass: once an operation of a coroutine has its  *)
(* result (it yielded, or it was woken), no other coroutine is given a      *)
(* third turn before it. Coming back from a start is no new turn.           *)
(***************************************************************************)
EXTENDS TraceCore
NCO == Log[1].nco       \* coroutine slots
\* with few slots the turns of every other coroutine are counted, with many their sum
Few == NCO <= 8
Others == IF Few THEN 1..NCO ELSE {1}
Ix(d) == IF Few THEN d ELSE 1
MAXG == 2       \* turns of another coroutine before one that was granted
MAXB == 3       \* and before one whose deadline has passed or that was canceled
VARIABLES cur, cnt, now
fvars == <<l, s, cur, cnt, now>>
Zero == [d \in Others |-> 0]
\* why c can run: "g" it has its result, "b" it can withdraw from what it waits for, or else "-"
Ready(z, c, t) ==
  IF z.co = <<>> \/ z.co[c].st # "op" THEN "-"
  ELSE LET k == z.co[c] IN
    IF k.ph \in {"gr", "sg"} /\ (k.wt \/ k.op = "yield") THEN "g"
    ELSE IF k.ph = "bl" /\ k.op \notin {"relock", "write"} /\ (k.can \/ Expired(k.dl, t)) THEN "b"
    ELSE "-"
Turn(e) == IF "c" \in DOMAIN e /\ e.e \notin {"wb", "we"} THEN e.c ELSE 0
FInit == Init /\ cur = 0 /\ cnt = [c \in 1..NCO |-> Zero] /\ now = 0
FNext ==
  /\ l <= Len(Log)
  /\ \/ LET e == Log[l]
            d == Turn(e)
            back == e.e = "ret" /\ s.co[d].op = "start"
            new == d # 0 /\ d # cur IN
        /\ s' \in StepSet(s, e)
        /\ l' = l + 1
        /\ now' = IF e.e = "reset" THEN 0 ELSE IF "t" \in DOMAIN e THEN e.t ELSE now
        /\ cur' = IF e.e \in {"reset", "done"} THEN 0 ELSE IF d = 0 THEN cur ELSE d
        /\ cnt' = [c \in 1..NCO |->
             IF c = d \/ Ready(s, c, now) = "-" \/ Ready(s, c, now) # Ready(s', c, now) THEN Zero
             ELSE IF e.e \in {"end", "aexit"} /\ Few THEN [cnt[c] EXCEPT ![d] = 0]     \* its place may be taken by a new one
             ELSE IF new /\ ~back THEN [cnt[c] EXCEPT ![Ix(d)] = @ + 1] ELSE cnt[c]]
        /\ \A c \in 1..NCO, k \in Others :
             cnt'[c][k] <= (IF Ready(s', c, now) = "g" THEN MAXG ELSE MAXB) * (IF Few THEN 1 ELSE NCO)
     \/ /\ "t" \in DOMAIN Log[l]
        /\ s' \in Silent(s, Log[l].t)
        /\ UNCHANGED <<l, cur, cnt, now>>
FSpec == FInit /\ [][FNext]_fvars
=============================================================================
