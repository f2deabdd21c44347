----------------------------- MODULE NecoStream ------------------------------
(***************************************************************************)
(* Streams over a connected descriptor. For every stream:                   *)
(*   P    bytes that the peer has put in, pcw: and it will put no more      *)
(*   U    bytes that the user has read (minus unread ones)                  *)
(*   L    bytes fetched from the descriptor but not read (buffered)         *)
(*   back bytes before these that are still in the buffer (can be unread)   *)
(*   W    bytes that the user has written, S of them entered the descriptor *)
(*   R    bytes that the peer has read, pcr: it will read no more           *)
(* The n-th byte of a direction has the value n % 251.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
INF == -1
SLACK == 1001000
MOD == 251
Min(a, b) == IF a < b THEN a ELSE b
Expired(d, t) == d # INF /\ d <= t

Fresh1(cap) == [cap |-> cap, P |-> 0, pcw |-> FALSE, U |-> 0, L |-> 0, back |-> 0,
                W |-> 0, S |-> 0, R |-> 0, pcr |-> FALSE, open |-> FALSE, sure |-> TRUE,
                rnm |-> FALSE, wnm |-> FALSE, mnm |-> FALSE,
                ro |-> "none", rn |-> 0, rd |-> INF, rcan |-> FALSE,
                wo |-> "none", wn |-> 0, wd |-> INF, wcan |-> FALSE]

(******************************** reading **********************************)
ReadCall(s, e) == IF s.ro = "none" /\ s.open THEN { [s EXCEPT !.ro = e.o, !.rn = e.n, !.rd = e.d, !.rnm = FALSE] } ELSE {}
Got(s, e, back) == [s EXCEPT !.U = @ + e.k, !.L = e.bs, !.back = back, !.ro = "none"]
\* number of bytes that can still be fetched
Avail(s) == s.P - s.U - s.L
Same(s, e) == e.bs = s.L
ReadRet(s, e) ==
  LET k == e.k
      fetched == e.bs + k - s.L      \* bytes fetched from the descriptor by this call
      late == Expired(s.rd, e.t)
      hung == s.pcw /\ s.P = s.U + k
      ended == [s EXCEPT !.ro = "none"] IN
  IF s.ro = "none" THEN {}
  ELSE CASE e.r = "OK" ->
         IF ~(k >= 1 /\ k <= s.rn /\ e.seq /\ e.b = s.U % MOD /\ fetched >= 0 /\ fetched <= Avail(s) /\ e.le = "OK")
         THEN {}
         ELSE IF s.cap = 0 THEN
           IF e.bs = 0 /\ (s.ro = "full" => (k = s.rn \/ late \/ s.rcan \/ s.rnm \/ hung)) THEN { Got(s, e, 0) } ELSE {}
         ELSE IF s.L >= k THEN
           \* from the buffer
           (IF fetched = 0 /\ (k = s.rn \/ (k = s.L /\ (s.ro # "full" \/ late \/ s.rcan \/ s.rnm)))
            THEN { Got(s, e, s.back + k) } ELSE {})
           \cup (IF fetched = 0 /\ k = s.L /\ k < s.rn /\ s.ro = "full" /\ hung THEN { Got(s, e, 0) } ELSE {})
         ELSE IF s.ro # "full" THEN
           \* the buffer is empty and is filled once
           IF s.L = 0 /\ fetched <= s.cap /\ k = Min(fetched, s.rn) THEN { Got(s, e, k) } ELSE {}
         ELSE IF e.bs > s.cap THEN {}
         ELSE (IF k = s.rn \/ (e.bs = 0 /\ (late \/ s.rcan \/ s.rnm))
               THEN { Got(s, e, j) : j \in 1..Min(k - s.L, s.cap - e.bs) } ELSE {})
              \cup (IF k < s.rn /\ e.bs = 0 /\ hung THEN { Got(s, e, 0) } ELSE {})
    [] e.r = "EOF" -> IF s.pcw /\ s.L = 0 /\ s.P = s.U /\ e.bs = 0 /\ e.le = "EOF"
                      THEN { [ended EXCEPT !.back = 0] } ELSE {}
    [] e.r = "TIMEDOUT" -> IF late /\ s.L = 0 /\ e.bs = 0 /\ e.le = e.r THEN { ended } ELSE {}
    \* out of memory: nothing is lost, another try may work
    [] e.r = "NOMEM" -> IF s.rnm /\ s.L = 0 /\ e.bs = 0 /\ e.le = e.r THEN { ended } ELSE {}
    [] e.r = "CANCELED" -> IF s.rcan /\ s.L = 0 /\ e.bs = 0 /\ e.le = e.r THEN { [ended EXCEPT !.rcan = FALSE] } ELSE {}
    [] OTHER -> {}
UnreadSet(s, e) ==
  IF s.ro # "none" THEN {}
  ELSE IF s.back > 0 THEN
    IF e.r = "OK" /\ e.le = "OK" /\ e.bs = s.L + 1
    THEN { [s EXCEPT !.U = @ - 1, !.L = @ + 1, !.back = @ - 1] } ELSE {}
  ELSE IF e.r = "UNREADFAIL" /\ e.le = e.r /\ e.bs = s.L THEN { s } ELSE {}

(******************************** writing **********************************)
WriteCall(s, e) == IF s.wo = "none" /\ s.open THEN { [s EXCEPT !.wo = e.o, !.wn = e.n, !.wd = e.d, !.wnm = FALSE] } ELSE {}
WriteRet(s, e) ==
  LET late == Expired(s.wd, e.t)
      cause == late \/ s.wcan \/ s.pcr \/ s.wnm
      W2 == s.W + e.k
      S2 == W2 - e.bs                 \* what entered the descriptor
      z == [s EXCEPT !.W = W2, !.S = S2, !.wo = "none"]
      unmoved == S2 = s.S
      sane == S2 >= s.S /\ s.R <= S2 /\ e.bs >= 0 /\ e.bs <= s.cap IN
  IF s.wo = "none" \/ (e.r # "OK" /\ e.le # e.r) THEN {}
  ELSE IF s.wo = "close" THEN
    IF e.r = "OK" THEN { [s EXCEPT !.S = s.W, !.wo = "none", !.open = FALSE] }
    ELSE IF \/ e.r = "TIMEDOUT" /\ late
            \/ e.r = "CANCELED" /\ s.wcan
            \/ e.r = "NOMEM" /\ s.wnm
            \/ e.r \in {"PART", "ERROR"} /\ cause
    THEN { [s EXCEPT !.wo = "none", !.open = FALSE, !.sure = FALSE] } ELSE {}
  ELSE IF ~sane THEN {}
  ELSE CASE e.r = "OK" /\ s.wo = "write" ->
              IF e.k = s.wn \/ (0 < e.k /\ e.k < s.wn /\ cause) THEN { z } ELSE {}
         [] e.r = "OK" /\ s.wo = "flush" -> IF e.bs = 0 /\ e.k = 0 THEN { z } ELSE {}
         [] e.r = "NOMEM" -> IF s.wnm /\ e.k = 0 /\ unmoved THEN { z } ELSE {}
         [] e.r = "TIMEDOUT" -> IF late /\ e.k = 0 /\ unmoved THEN { z } ELSE {}
         [] e.r = "CANCELED" -> IF s.wcan /\ e.k = 0 /\ unmoved THEN { [z EXCEPT !.wcan = FALSE] } ELSE {}
         [] e.r = "PART" -> IF cause /\ e.k = 0 /\ ~unmoved /\ e.bs > 0 THEN { z } ELSE {}
         [] e.r = "ERROR" -> IF s.pcr /\ e.k = 0 /\ unmoved THEN { z } ELSE {}
         [] OTHER -> {}

(************************* making and letting go ***************************)
Make(s, e) == IF s.open \/ e.le # e.r THEN {}
              ELSE IF e.r = "OK" THEN { [s EXCEPT !.open = TRUE, !.mnm = FALSE] }
              ELSE IF e.r = "NOMEM" /\ s.mnm THEN { [s EXCEPT !.mnm = FALSE] } ELSE {}
\* what was not flushed is gone, the descriptor stays open
Release(s, e) == IF s.open /\ s.ro = "none" /\ s.wo = "none" /\ e.r = "OK" /\ e.le = "OK"
                 THEN { [s EXCEPT !.open = FALSE] } ELSE {}
NoMem(s) == [s EXCEPT !.rnm = (@ \/ s.ro # "none"), !.wnm = (@ \/ s.wo # "none"), !.mnm = (@ \/ ~s.open)]

(******************************** the peer *********************************)
Upper(s) == IF s.wo # "none" THEN s.W + s.wn ELSE IF s.sure THEN s.S ELSE s.W
PeerRead(s, e) ==
  LET z == [s EXCEPT !.R = @ + e.k] IN
  CASE e.end = "more" -> IF e.seq /\ e.b = s.R % MOD /\ s.R + e.k <= Upper(s) THEN { z } ELSE {}
    [] e.end = "again" -> IF s.open /\ s.R >= s.S THEN { s } ELSE {}
    [] e.end = "eof" -> IF ~s.open /\ s.R >= s.S THEN { s } ELSE {}
    [] OTHER -> {}

(******************************** idling ***********************************)
Quiet(s, x, e) ==
  /\ s.ro = "none" \/ ( /\ ~s.rcan /\ ~s.pcw /\ (s.rd = INF \/ e.u <= s.rd + SLACK)
                        /\ IF s.ro = "full" THEN s.P - s.U < s.rn ELSE s.P = s.U )
  /\ s.wo = "none" \/ ( /\ ~s.wcan /\ ~s.pcr /\ (s.wd = INF \/ e.u <= s.wd + SLACK)
                        /\ x \notin { e.ww[i] : i \in 1..Len(e.ww) } )
=============================================================================
