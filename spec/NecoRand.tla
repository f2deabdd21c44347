------------------------------- MODULE NecoRand -------------------------------
(***************************************************************************)
(* The pseudo random generator of a runtime. Its position is a seed and the *)
(* sizes of the parts taken since the seed was set; what a part holds is a  *)
(* function of that position and its size alone, for every runtime, thread  *)
(* and program. Requests are served in parts; requests of several           *)
(* coroutines may take their parts in any order. The function is not        *)
(* written down here but learned: one position has one content, ever.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rm(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
NoPos == [b |-> "?", h |-> <<>>]

\* what is known of all runtimes
\*  F: position (after the part) -> the hash of the part; S: seed value -> position;
\*  V: position -> seed value; X: hashes of all secure results
World0 == [F |-> [x \in {} |-> 0], S |-> [x \in {} |-> NoPos], V |-> [x \in {} |-> ""], X |-> {}]
\* a runtime: the position and the coroutines
\*  co: [p: parts to take, r: result of the request, n: parts taken, can: canceled, asy]
Rt0 == [pos |-> NoPos, co |-> [x \in {} |-> 0]]
Idle(asy) == [p |-> <<>>, busy |-> FALSE, can |-> FALSE, asy |-> asy, late |-> FALSE, r |-> ""]

BeginSet(w, m, c, asy) == { <<w, [m EXCEPT !.co = Put(@, c, Idle(asy))]>> }

At(w, s) == IF s \in DOMAIN w.S THEN w.S[s] ELSE [b |-> s, h |-> <<>>]
SeedSet(w, m, s, want, old, r) ==
  LET p == m.pos
      w1 == IF ~want \/ p = NoPos THEN { w }
            ELSE IF p \in DOMAIN w.V /\ w.V[p] # old THEN {}           \* one position, one value
            \* several positions may have the same value: what follows is the same
            ELSE { [w EXCEPT !.V = Put(@, p, old), !.S = IF old \in DOMAIN @ THEN @ ELSE Put(@, old, p)] }
      to == [b |-> s, h |-> <<>>]
  IN IF r # "OK" THEN {} ELSE
     { <<IF s \in DOMAIN v.S THEN v ELSE [v EXCEPT !.S = Put(@, s, to), !.V = Put(@, to, s)],
         [m EXCEPT !.pos = At(v, s)]>> : v \in w1 }

\* a request. parts: <<size, hash, was it filled>>
CallSet(w, m, c, kind, parts, r, late, fresh) ==
  IF ~fresh \/ m.co[c].busy THEN {}
  ELSE LET took == SelectSeq(parts, LAMBDA x : x[3] = 1)
           cc == [m.co[c] EXCEPT !.busy = TRUE, !.r = r, !.late = late, !.p = IF kind = 0 THEN took ELSE <<>>]
           \* parts are filled from the front; all of them exactly if it succeeds
           sane == /\ \A i \in 1..Len(took) : parts[i] = took[i]
                   /\ (r = "OK" => Len(took) = Len(parts))
                   /\ (kind = 2 => r = "INVAL") /\ (r = "INVAL" => kind = 2)
                   /\ (r = "INVAL" => took = <<>>) /\ (r \in {"CANCELED", "TIMEDOUT"} => Len(took) < Len(parts) \/ parts = <<>>)
                   /\ (kind # 2 /\ late => took = <<>> /\ r # "OK")
                   /\ (kind # 2 /\ m.co[c].can => took = <<>> /\ r # "OK")
           big == { x[2] : x \in { took[i] : i \in { j \in 1..Len(took) : kind = 1 /\ took[j][1] >= 16 } } }
       IN IF ~sane \/ big \cap w.X # {} THEN {}
          ELSE { <<[w EXCEPT !.X = @ \cup big], [m EXCEPT !.co[c] = cc]>> }
\* a part is taken
TakeSet(w, m, c) ==
  IF ~m.co[c].busy \/ m.co[c].p = <<>> THEN {}
  ELSE LET x == Head(m.co[c].p)
           to == [b |-> m.pos.b, h |-> Append(m.pos.h, x[1])]
           at == IF m.pos = NoPos THEN NoPos ELSE to
           same == to \in DOMAIN w.F
           \* other seeds have other contents
           twin == x[1] >= 16 /\ Cardinality(DOMAIN m.co) = 1 /\ \E q \in DOMAIN w.F : q # to /\ q.h = to.h /\ w.F[q] = x[2]
       IN IF m.pos = NoPos \/ m.co[c].can \/ (same /\ w.F[to] # x[2]) \/ twin THEN {}
          \* nothing is learned while the order of the parts is a guess
          ELSE { <<IF Cardinality(DOMAIN m.co) > 1 THEN w ELSE [w EXCEPT !.F = Put(@, to, x[2])],
                   [m EXCEPT !.pos = IF to \in DOMAIN w.V /\ w.V[to] \in DOMAIN w.S THEN w.S[w.V[to]] ELSE to, !.co[c].p = Tail(@)]>> }
CancelSet(w, m, x) == IF x \in DOMAIN m.co THEN { <<w, [m EXCEPT !.co[x].can = TRUE]>> } ELSE { <<w, m>> }
RetSet(w, m, c, r, le, over) ==
  LET k == m.co[c] IN
  IF /\ k.busy /\ k.p = <<>> /\ r = k.r /\ le = r
     /\ (r = "CANCELED" => k.can) /\ (r = "TIMEDOUT" => over)
     /\ r \in {"OK", "CANCELED", "TIMEDOUT", "INVAL"}
  THEN { <<w, [m EXCEPT !.co[c] = [Idle(k.asy) EXCEPT !.can = k.can /\ r # "CANCELED"]]>> } ELSE {}
\* a coroutine ends at its own will, or in a request because it was canceled
EndSet(w, m, c) ==
  IF ~m.co[c].busy THEN { <<w, [m EXCEPT !.co = Rm(@, c)]>> } ELSE {}
ExitSet(w, m, c) ==
  IF m.co[c].can /\ m.co[c].asy THEN { <<w, [m EXCEPT !.co = Rm(@, c)]>> } ELSE {}
=============================================================================
