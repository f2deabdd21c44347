------------------------------ MODULE NecoProc -------------------------------
(***************************************************************************)
(* A whole process: which signals are watched by whom, which are pending,  *)
(* and when and how the process ends. Coroutines are 1..NC, signals 1..NG   *)
(* (their numbers: SigNo), the broken pipe signal is one of them.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
NC == 6
NG == 8
PIPE == 8
SigNo == <<10, 12, 14, 1, 2, 3, 15, 13>>
ABORT == 256 + 6
CO == 1..NC
G == 1..NG

Idle == [on |-> FALSE, d |-> -1, got |-> 0, n |-> 0]
Fresh(e) == [ st   |-> [c \in CO |-> "none"],      \* none, live, ended
              w    |-> [c \in CO |-> {}],          \* watched signals
              wt   |-> [c \in CO |-> Idle],        \* waiting for one
              q    |-> [g \in G |-> 0],            \* pending
              qn   |-> [g \in G |-> 0],
              nd   |-> 0,                          \* deliveries so far
              ext  |-> IF e.mode = 2 THEN G \ {PIPE} ELSE {},   \* sent by another process, not yet arrived
              ext0 |-> e.mode = 2,
              nap  |-> [c \in CO |-> {}],
              pw   |-> [c \in CO |-> "none"],
              die  |-> {},                         \* ends right now with one of these
              doom |-> {},                         \* ends soon with one of these: met by a background thread
              ep   |-> -1,                         \* ends soon with this code
              ret  |-> -1 ]
Watched(s, g) == \E c \in CO : g \in s.w[c]
Unw(s) == { g \in G : s.q[g] > 0 /\ ~Watched(s, g) }

Arrive(s, g) ==
  IF Watched(s, g) THEN [s EXCEPT !.q[g] = @ + 1, !.qn[g] = IF s.ext0 THEN 0 ELSE s.nd]
  ELSE IF g = PIPE THEN s
  ELSE [s EXCEPT !.die = {128 + SigNo[g]}]
\* what the runtime does by itself
Silent(s, t) ==
  IF s.die # {} THEN {}
  ELSE \* a pending signal goes to one that watches and waits for it
       { [s EXCEPT !.wt[p[1]].got = p[2], !.q[p[2]] = @ - 1, !.nd = @ + 1] :
            p \in { p \in CO \X G : s.wt[p[1]].on /\ s.wt[p[1]].got = 0 /\ p[2] \in s.w[p[1]] /\ s.q[p[2]] > 0 } }
       \* nobody watches it any more
       \cup { IF g = PIPE THEN [s EXCEPT !.q[g] = @ - 1] ELSE [s EXCEPT !.die = {128 + SigNo[g]}] : g \in Unw(s) }
       \* the wait is over (a delivery to somebody else may come first)
       \cup { [s EXCEPT !.wt[c].got = -1] :
                c \in { c \in CO : /\ s.wt[c].on /\ s.wt[c].got = 0 /\ s.wt[c].d >= 0 /\ t >= s.wt[c].d
                                   /\ s.ext = {}
                                   /\ \A g \in s.w[c] : s.q[g] > 0 => (s.nd > s.qn[g] /\ s.nd > s.wt[c].n) } }
       \cup { Arrive([s EXCEPT !.ext = @ \ {g}], g) : g \in { g \in s.ext : Watched(s, g) } }

Live(s, c) == s.st[c] = "live" /\ s.die = {} /\ ~s.wt[c].on
Ends(s, c) == [s EXCEPT !.st[c] = "ended", !.w[c] = {}]
StepSet(s, e) ==
  CASE e.e = "reset" -> { Fresh(e) }
    [] e.e = "main" -> IF e.main THEN {s} ELSE {}
    [] e.e = "exit" -> IF \/ s.die # {} /\ e.code \in s.die
                          \/ e.code \in s.doom
                          \/ s.die = {} /\ s.ep >= 0 /\ e.code = s.ep
                          \/ s.die = {} /\ s.ep < 0 /\ s.ret >= 0 /\ e.code = s.ret
                       THEN { [s EXCEPT !.die = {-1}] } ELSE {}
    [] s.die # {} -> {}
    [] e.e = "raise" -> { Arrive(s, e.g) }
    [] e.e = "start" -> IF s.st[e.c] = "none" THEN { [s EXCEPT !.st[e.c] = "live"] } ELSE {}
    [] e.e = "watch" -> IF Live(s, e.c) /\ e.r = "OK"
                        THEN { [s EXCEPT !.w[e.c] = @ \cup {e.g}, !.nap = [c \in CO |-> s.nap[c] \ {e.g}]] } ELSE {}
    [] e.e = "unwatch" -> IF Live(s, e.c) /\ e.r = "OK" THEN { [s EXCEPT !.w[e.c] = @ \ {e.g}] } ELSE {}
    [] e.e = "wait" -> IF Live(s, e.c) THEN { [s EXCEPT !.wt[e.c] = [on |-> TRUE, d |-> e.d, got |-> 0, n |-> s.nd]] } ELSE {}
    [] e.e = "got" -> IF \/ e.r = "OK" /\ e.g > 0 /\ s.wt[e.c].got = e.g
                         \/ e.r = "TIMEDOUT" /\ s.wt[e.c].got = -1
                      THEN { [s EXCEPT !.wt[e.c] = Idle] } ELSE {}
    \* while somebody sleeps a signal that nobody watches ends the program
    [] e.e = "nap" -> { [s EXCEPT !.nap[e.c] = Unw(s) \ {PIPE}] }
    [] e.e = "napped" -> IF s.nap[e.c] = {} THEN {s} ELSE {}
    [] e.e = "cend" -> IF Live(s, e.c) THEN { Ends(s, e.c) } ELSE {}
    [] e.e = "exitprog" -> IF Live(s, e.c) THEN { [Ends(s, e.c) EXCEPT !.ep = IF @ < 0 THEN e.code ELSE @] } ELSE {}
    [] e.e = "panic" -> { [s EXCEPT !.die = {ABORT}] }
    \* a broken standard output or error ends the program, any other broken pipe is an error
    [] e.e = "epipe" -> { [s EXCEPT !.doom = @ \cup {128 + 32}] }
    [] e.e = "wpipe" -> IF Live(s, e.c) /\ e.r = "ERROR" /\ e.le = "ERROR" /\ e.no = 32 THEN {s} ELSE {}
    [] e.e = "fault" -> { IF e.bg THEN [s EXCEPT !.doom = @ \cup {128 + e.g}] ELSE [s EXCEPT !.die = {128 + e.g}] }
    \* errors of the grave sort end the program if that is wanted, others never do
    [] e.e = "pcall" -> IF e.pe /\ e.want \in {"INVAL", "PERM", "NOMEM"} THEN { [s EXCEPT !.die = {ABORT}] }
                        ELSE { [s EXCEPT !.pw[e.c] = e.want] }
    [] e.e = "pret" -> IF s.pw[e.c] = e.r /\ e.le = e.r THEN { [s EXCEPT !.pw[e.c] = "none"] } ELSE {}
    [] e.e = "return" -> IF /\ e.r = "OK" /\ e.diff = 0 /\ s.ep < 0 /\ s.ext = {}
                            /\ \A c \in CO : s.st[c] # "live"
                         THEN { [s EXCEPT !.ret = e.code] } ELSE {}
    [] OTHER -> {}
=============================================================================
