------------------------------ MODULE MCSched -------------------------------
(***************************************************************************)
(* Exhaustive check of NecoSched: all programs of at most B operations by   *)
(* at most N coroutines.                                                    *)
(***************************************************************************)
EXTENDS NecoSched
CONSTANTS N, B
VARIABLES s, b, cnt, last
vars == <<s, b, cnt, last>>
Zero == [c \in 1..N |-> [d \in 1..N |-> 0]]
Init == s = Init0(N) /\ b = 0 /\ cnt = Zero /\ last = 0

\* cnt[c][d]: how many turns d was given since c became ready. Coming back
\* from a start is no new turn.
Upd(z) ==
  LET newturn == z.cur # 0 /\ z.cur # s.cur /\ ~(z.op[z.cur] = "start") IN
  [c \in 1..N |-> IF ~Ready(z, c) THEN [d \in 1..N |-> 0]
     ELSE IF newturn THEN [cnt[c] EXCEPT ![z.cur] = @ + 1] ELSE cnt[c]]

c0 == s.cur
Ops ==
  UNION { BeginSet(s, c0), RetSet(s, c0, s.r[c0]) }
Calls ==
  UNION ({ YieldSet(s, c0), SuspendSet(s, c0), EndSet(s, c0) }
         \cup { StartSet(s, c0, x) : x \in { CHOOSE y \in 1..N+1 : y = N+1 \/ (s.st[y] = "free" /\ \A z \in 1..(y-1) : s.st[z] # "free") } \ {N+1} }
         \cup { ResumeSet(s, c0, x) : x \in 1..N }
         \cup { JoinSet(s, c0, x) : x \in (1..N) \ {c0} })
Next ==
  /\ c0 # 0
  /\ \/ /\ s' \in Ops /\ b' = b
     \/ /\ s' \in (IF b < B THEN Calls ELSE EndSet(s, c0)) /\ b' = b + 1
  /\ cnt' = Upd(s')
  /\ last' = c0
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every live coroutine is in exactly one place
Queued(c) == Cardinality({ i \in 1..Len(s.run) : s.run[i] = c }) + Cardinality({ i \in 1..Len(s.yl) : s.yl[i] = c })
             + Cardinality({ i \in 1..Len(s.wk) : s.wk[i] = c }) + (IF s.cur = c THEN 1 ELSE 0)
OnePlace == \A c \in 1..N :
  Queued(c) = IF s.st[c] \in {"free", "dead"} \/ s.op[c] \in {"suspend", "wait"} THEN 0 ELSE 1
\* bounded bypass
Fair == \A c, d \in 1..N : cnt[c][d] <= 2
\* a started coroutine runs at once
StartedRuns == \A c \in 1..N : s.st[c] = "new" => s.cur = c
\* the runtime goes idle only if nobody can run
IdleOk == s.cur = 0 => (s.run = <<>> /\ s.yl = <<>> /\ s.wk = <<>>)
=============================================================================
