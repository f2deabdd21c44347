------------------------------- MODULE MCCore -------------------------------
(***************************************************************************)
(* Exhaustive model checking of NecoCore: all programs of at most B         *)
(* operations, taken from the alphabet OPS, by at most NC coroutines, over  *)
(* a small number of objects, in every interleaving, with a clock that may  *)
(* advance at any time (so every operation may meet its deadline at any     *)
(* point) and cancels at any point. The properties are stated over the      *)
(* results that the programs see, recorded in the history h, and not over   *)
(* the queues inside of the specification.                                  *)
(***************************************************************************)
EXTENDS NecoCore, TLC
CONSTANTS CO,        \* coroutines: model values, as they are alike
          START,     \* how many of them are running at the beginning
          OPS,       \* alphabet
          CAPS,      \* capacities of the channels
          NM, NV, NW, NSG,    \* mutexes, conditions, waitgroups, signals
          DLS,       \* deadlines
          T,         \* the clock goes from 0 to T
          B,         \* calls in total
          ASY        \* is the cancel type asynchronous: a set of booleans
Caps == <<>>
Caps0 == <<0>>
Caps1 == <<1>>
Caps01 == <<0, 1>>
Caps00 == <<0, 0>>
Caps2 == <<2>>
DlInf == {INF}
Dl1 == {INF, 1}
Dl12 == {INF, 1, 2}
Dl01 == {INF, 0, 1}
VARIABLES s, t, b, h
vars == <<s, t, b, h>>

Alike == Permutations(CO)
CH == 1..Len(CAPS)
HInit == [nv |-> 0,                       \* messages are numbered
          chan |-> <<>>,                  \* message -> channel
          from |-> <<>>,                  \* message -> sender
          kind |-> <<>>,                  \* message -> "send" or "bcast"
          res |-> <<>>,                   \* message -> "-" (call not finished), result of the send, "DEAD"
          got |-> {},                     \* what the receivers were handed: <<c, x, v>>
          dup |-> FALSE,                  \* something was handed to the same one again
          ncan |-> [c \in CO |-> 0],      \* cancels that found c without one
          nret |-> [c \in CO |-> 0],      \* operations of c that reported a cancel (or were cut short by it)
          ord |-> 0, qn |-> [c \in CO |-> 0],   \* order of the calls
          hw |-> [m \in 1..NM |-> {}], hr |-> [m \in 1..NM |-> {}],    \* who holds what
          rz |-> [g \in 1..NSG |-> 0], sg |-> [g \in 1..NSG |-> 0],    \* signals raised, returned
          hp |-> [c \in CO |-> <<>>], hx |-> {}, nh |-> 0,              \* handlers: pushed, run
          wbeg |-> [c \in CO |-> 0], wend |-> [c \in CO |-> 0],
          nsig |-> 0, nwoke |-> 0]
Init ==
  /\ \E a \in ASY, run \in { q \in SUBSET CO : Cardinality(q) = START } :
     s = [co |-> [c \in CO |-> IF c \in run THEN [CoFree EXCEPT !.st = "user", !.asy = a] ELSE CoFree],
       ch |-> [x \in CH |-> ChFree(CAPS[x])],
       mu |-> [x \in 1..NM |-> MuFree], cv |-> [x \in 1..NV |-> <<>>], wg |-> [x \in 1..NW |-> WgFree],
       sig |-> [x \in 1..NSG |-> 0], wq |-> [x \in 0..1 |-> <<>>], wth |-> [x \in 0..1 |-> 0],
       denv |-> [cen |-> TRUE, asy |-> a, wfifo |-> TRUE, mem |-> FALSE, nm |-> FALSE], io |-> <<>>]
  /\ t = 0 /\ b = 0 /\ h = HInit

(**************************** what can be called ****************************)
Ev(o, x, m, v, d, xs) == [o |-> o, x |-> x, m |-> m, v |-> v, d |-> d, xs |-> xs, t |-> t]
Has(o) == o \in OPS
Slots == { k \in CO : s.co[k].st = "free" }
Holds(c, m) == c \in h.hw[m] \cup h.hr[m]
Calls(c) ==
  UNION {
    { Ev(o, x, 0, h.nv + 1, d, <<>>) : o \in OPS \cap {"send"}, x \in CH, d \in DLS },
    { Ev(o, x, 0, h.nv + 1, INF, <<>>) : o \in OPS \cap {"bcast"}, x \in CH },
    { Ev(o, x, 0, 0, d, <<>>) : o \in OPS \cap {"recv", "gnext"}, x \in CH, d \in DLS },
    { Ev(o, x, 0, 0, INF, <<>>) : o \in OPS \cap {"tryrecv", "close"}, x \in CH },
    { Ev(o, 0, 0, 0, d, <<1, 2>>) : o \in OPS \cap {"select"}, d \in DLS },
    { Ev(o, 0, 0, 0, INF, <<1, 2>>) : o \in OPS \cap {"tryselect"} },
    { Ev(o, 0, 0, h.nv + 1, d, <<>>) : o \in OPS \cap {"gyield"}, d \in DLS },
    { Ev(o, x, 0, 0, d, <<>>) : o \in OPS \cap {"lock", "rdlock"}, x \in { m \in 1..NM : ~Holds(c, m) }, d \in DLS },
    { Ev(o, x, 0, 0, INF, <<>>) : o \in OPS \cap {"trylock", "tryrdlock"}, x \in { m \in 1..NM : ~Holds(c, m) } },
    { Ev(o, x, 0, 0, INF, <<>>) : o \in OPS \cap {"unlock"}, x \in { m \in 1..NM : Holds(c, m) } },
    { Ev(o, x, 1, 0, d, <<>>) : o \in OPS \cap {"cwait"}, x \in IF NM > 0 /\ c \in h.hw[1] THEN 1..NV ELSE {}, d \in DLS },
    { Ev(o, x, 0, 0, INF, <<>>) : o \in OPS \cap {"csig", "cbc"}, x \in 1..NV },
    { Ev(o, x, 0, v, INF, <<>>) : o \in OPS \cap {"wgadd"}, x \in 1..NW, v \in {1, 2, -1} },
    { Ev(o, x, 0, 0, INF, <<>>) : o \in OPS \cap {"wgdone"}, x \in 1..NW },
    { Ev(o, x, 0, 0, d, <<>>) : o \in OPS \cap {"wgwait"}, x \in 1..NW, d \in DLS },
    { Ev(o, 0, 0, 0, d, <<>>) : o \in OPS \cap {"sleep"}, d \in DLS \ {INF} },
    { Ev(o, 0, 0, 0, d, <<>>) : o \in OPS \cap {"suspend", "sigwait"}, d \in DLS },
    { Ev(o, x, 0, 0, d, <<>>) : o \in OPS \cap {"join"}, x \in CO \ Slots, d \in DLS },
    { Ev(o, x, 0, 0, INF, <<>>) : o \in OPS \cap {"resume"}, x \in CO },
    { Ev(o, x, 0, 0, d, <<>>) : o \in OPS \cap {"cancel"}, x \in CO, d \in DLS },
    { Ev(o, x, 0, 0, INF, <<>>) : o \in OPS \cap {"work"}, x \in 0..1 },
    { Ev(o, 0, 0, 0, INF, <<>>) : o \in OPS \cap {"yield", "exit"} },
    { Ev(o, k, g, 0, INF, <<>>) : o \in OPS \cap {"start"}, k \in Slots,
        g \in IF Has("gyield") THEN { x \in CH : \A c2 \in CO : s.co[c2].gen # x } \cup {0} ELSE {0} } }

IsMsg(e) == e.o \in {"send", "bcast", "gyield"}
MsgChan(c, e) == IF e.o = "gyield" THEN s.co[c].gen ELSE e.x
\* a cancel that found its target without a pending one
NewCan(z, c) == IF s.co[c].can = FALSE /\ z.co[c].can = TRUE THEN 1 ELSE 0
CountCan(z, g) == [g EXCEPT !.ncan = [c \in CO |-> @[c] + NewCan(z, c)]]
Ordered(e) == e.o \in {"lock", "rdlock"} \/ (Has("order") /\ e.o = "recv")
Call(c) == \E e \in Calls(c) : \E z \in CallSet(s, c, e) :
  /\ b < B /\ b' = b + 1 /\ t' = t
  /\ s' = z
  /\ h' = CountCan(z,
      LET g1 == [h EXCEPT !.ord = IF Ordered(e) THEN @ + 1 ELSE @, !.qn[c] = IF Ordered(e) THEN h.ord + 1 ELSE 0]
          g2 == IF IsMsg(e) THEN [g1 EXCEPT !.nv = @ + 1, !.chan = Append(@, MsgChan(c, e)), !.from = Append(@, c),
                                    !.kind = Append(@, IF e.o = "bcast" THEN "bcast" ELSE "send"), !.res = Append(@, "-")] ELSE g1
          g3 == IF e.o = "unlock" THEN [g2 EXCEPT !.hw[e.x] = @ \ {c}, !.hr[e.x] = @ \ {c}]
                ELSE IF e.o = "cwait" /\ z.co[c].ph = "bl" THEN [g2 EXCEPT !.hw[1] = @ \ {c}] ELSE g2
          g4 == IF e.o = "csig" /\ s.cv[e.x] # <<>> THEN [g3 EXCEPT !.nsig = @ + 1]
                ELSE IF e.o = "cbc" THEN [g3 EXCEPT !.nsig = @ + Len(s.cv[e.x])] ELSE g3 IN g4)

MyMsg(c) == CHOOSE v \in 1..h.nv : h.from[v] = c /\ h.res[v] = "-"
\* what a coroutine may see when its operation returns
Rets(c) ==
  LET k == s.co[c] IN
  IF k.ph = "gr" THEN { [r |-> k.r, i |-> k.i, v |-> k.v, t |-> t] }
  ELSE { [r |-> r, i |-> 0, v |-> 0, t |-> t] : r \in {"CANCELED", "TIMEDOUT"} \cup (IF k.op = "sleep" THEN {"OK"} ELSE {}) }
       \cup (IF k.op = "sigwait" THEN { [r |-> "OK", i |-> 0, v |-> g, t |-> t] : g \in 1..NSG } ELSE {})
Hand(g, m) == [g EXCEPT !.got = @ \cup {m}, !.dup = @ \/ m \in h.got]
Ret(c) == s.co[c].st = "op" /\ \E e \in Rets(c) : \E z \in RetSet(s, c, e) :
  /\ b' = b /\ t' = t /\ s' = z
  /\ LET k == s.co[c]
         g1 == IF k.op \in {"send", "bcast", "gyield"} THEN [h EXCEPT !.res[MyMsg(c)] = e.r] ELSE h
         g2 == IF e.r = "OK" /\ k.op \in {"recv", "tryrecv", "gnext"} THEN Hand(g1, <<c, k.x, e.v>>)
               ELSE IF e.r = "OK" /\ k.op \in {"select", "tryselect"} THEN Hand(g1, <<c, e.i + 1, e.v>>) ELSE g1
         g3 == IF e.r = "CANCELED" THEN [g2 EXCEPT !.nret[c] = @ + 1] ELSE g2
         g4 == IF e.r = "OK" /\ k.op \in {"lock", "trylock"} THEN [g3 EXCEPT !.hw[k.x] = @ \cup {c}]
               ELSE IF e.r = "OK" /\ k.op \in {"rdlock", "tryrdlock"} THEN [g3 EXCEPT !.hr[k.x] = @ \cup {c}]
               ELSE IF k.op = "relock" THEN [g3 EXCEPT !.hw[1] = @ \cup {c}] ELSE g3
         g5 == IF k.op = "sigwait" /\ e.r = "OK" THEN [g4 EXCEPT !.sg[e.v] = @ + 1] ELSE g4
         g6 == IF k.op = "relock" /\ e.r = "OK" THEN [g5 EXCEPT !.nwoke = @ + 1] ELSE g5
     IN h' = g6

\* a coroutine that goes: it gives up its locks first (a program that does not
\* is of no interest here)
NoLocks(c) == \A m \in 1..NM : ~Holds(c, m)
Gone(c, g) ==
  LET k == s.co[c]
      g1 == [g EXCEPT !.res = [v \in 1..Len(@) |-> IF h.from[v] = c /\ @[v] = "-" THEN "DEAD" ELSE @[v]]]
  IN IF ~k.cup /\ k.op # "exit" /\ k.st = "op" THEN [g1 EXCEPT !.nret[c] = @ + 1] ELSE g1
Acts(c) ==
  \/ s' \in EndSet(s, c) /\ NoLocks(c) /\ h' = h
  \/ s' \in AsyncExitSet(s, c) /\ h' = Gone(c, h)
  \/ Has("push") /\ s.co[c].st = "user" /\ ~s.co[c].cup /\ h.nh < 3 /\ s' \in PushHSet(s, c, h.nh + 1)
     /\ h' = [h EXCEPT !.nh = @ + 1, !.hp[c] = Append(@, h.nh + 1)]
  \/ Has("push") /\ s.co[c].cl # <<>> /\ ~s.co[c].cup /\ \E ex \in BOOLEAN : s' \in PopHSet(s, c, Last(s.co[c].cl), ex)
     /\ h' = IF ex THEN h ELSE [h EXCEPT !.hp[c] = Front(@)]
  \/ \E i \in 1..h.nh : s' \in HandlerSet(s, c, i)
       /\ h' = [(IF s.co[c].st = "op" THEN Gone(c, h) ELSE h) EXCEPT !.hx = @ \cup {i}, !.hp[c] = Front(@), !.dup = @ \/ Last(h.hp[c]) # i \/ i \in h.hx]
  \/ s.co[c].hact /\ s' \in HandlerEndSet(s, c) /\ h' = h
  \/ Has("setcs") /\ s' \in SetCsSet(s, c, [v |-> ~s.co[c].cen, w |-> s.co[c].cen]) /\ h' = h /\ b < B
  \/ Has("sigwait") /\ \E g \in 1..NSG : g \notin s.co[c].sw /\ s' \in WatchSet(s, c, g) /\ h' = h
  \/ Has("work") /\ s' \in WorkBeginSet(s, c, 0) /\ h' = [h EXCEPT !.wbeg[c] = @ + 1]
  \/ Has("work") /\ s' \in WorkEndSet(s, c) /\ h' = [h EXCEPT !.wend[c] = @ + 1]
Act(c) == Acts(c) /\ UNCHANGED t /\ b' = IF Has("setcs") /\ s'.co[c].cen # s.co[c].cen /\ s'.co[c].st = "user" THEN b + 1 ELSE b
Begin(c) == s.co[c].st = "born" /\ s' = ToUser0(s, c) /\ UNCHANGED <<t, b, h>>
Tick == t < T /\ t' = t + 1 /\ UNCHANGED <<s, b, h>>
Raise == Has("sigwait") /\ \E g \in 1..NSG : h.rz[g] < 2 /\ s' \in RaiseSet(s, g) /\ h' = [h EXCEPT !.rz[g] = @ + 1] /\ UNCHANGED <<t, b>>
Internal == \E z \in Silent(s, t) :
  /\ s' = z /\ UNCHANGED <<t, b>>
  /\ h' = CountCan(z, h)
Next == (\E c \in CO : Call(c) \/ Ret(c) \/ Act(c) \/ Begin(c)) \/ Tick \/ Raise \/ Internal
Spec == Init /\ [][Next]_vars

(******************************* properties *********************************)
SeqSet(q) == { q[i] : i \in 1..Len(q) }
Got(v) == { m \in h.got : m[3] = v }
\* handed over, though perhaps the receiver has not returned yet
InHand(v) == { c \in CO : s.co[c].st = "op" /\ s.co[c].ph = "gr" /\ s.co[c].r = "OK" /\ s.co[c].v = v
                           /\ s.co[c].op \in {"recv", "tryrecv", "gnext", "select", "tryselect"} }
InBuf(v) == { x \in CH : \E i \in 1..Len(s.ch[x].buf) : s.ch[x].buf[i] = v }
Pending(v) == { x \in CH : \E i \in 1..Len(s.ch[x].snd) : s.ch[x].snd[i].v = v }
Msgs == { v \in 1..h.nv : h.kind[v] = "send" }
\* C05: exactly once, nothing invented, nothing from a failed send, nothing lost
ExactlyOnce == \A v \in Msgs :
  /\ Cardinality(Got(v)) + Cardinality(InHand(v)) + Cardinality(InBuf(v)) + Cardinality(Pending(v)) <= 1
  /\ (h.res[v] \in {"TIMEDOUT", "CANCELED", "CLOSED", "DEAD"} =>
        Got(v) = {} /\ InHand(v) = {} /\ InBuf(v) = {} /\ Pending(v) = {})
NothingInvented == ~h.dup /\ \A m \in h.got : m[3] \in 1..h.nv /\ h.chan[m[3]] = m[2]
NotLost == \A v \in Msgs : h.res[v] = "OK" =>
  Cardinality(Got(v)) + Cardinality(InHand(v)) + Cardinality(InBuf(v)) = 1
\* what is still in the channel was sent after everything that left it, in order
Line(x) == s.ch[x].buf \o [i \in 1..Len(s.ch[x].snd) |-> s.ch[x].snd[i].v]
InOrder == \A x \in CH :
  /\ \A i, j \in 1..Len(Line(x)) : i < j => Line(x)[i] < Line(x)[j]
  /\ \A v \in Msgs : h.chan[v] = x /\ (Got(v) # {} \/ InHand(v) # {}) => \A i \in 1..Len(Line(x)) : v < Line(x)[i]
\* C06: nobody waits who could go on
Blocked(c, ops) == s.co[c].st = "op" /\ s.co[c].ph = "bl" /\ s.co[c].op \in ops
Waiters(x) == { c \in CO : Blocked(c, {"recv", "gnext"}) /\ s.co[c].x = x }
Capacity == \A x \in CH :
  /\ Len(s.ch[x].buf) <= s.ch[x].cap
  /\ s.ch[x].snd # <<>> => Len(s.ch[x].buf) = s.ch[x].cap /\ s.ch[x].rcv = <<>>
  /\ s.ch[x].rcv # <<>> => s.ch[x].buf = <<>> /\ s.ch[x].snd = <<>>
NeverWaits == \A c \in CO : ~Blocked(c, {"tryrecv", "tryselect", "trylock", "tryrdlock", "bcast", "close", "csig", "cbc", "wgadd", "wgdone", "unlock", "resume"})
\* in the order in which they came
RecvFifo == [][\A c, d \in CO : Blocked(c, {"recv"}) /\ Blocked(d, {"recv"}) /\ s.co[c].x = s.co[d].x /\ h.qn[d] < h.qn[c]
   /\ s'.co[c].st = "op" /\ s'.co[c].ph = "gr" => s'.co[d].ph # "bl"]_vars
\* C07: a closed and drained channel keeps nobody waiting; no send succeeds after the close
ClosedDrains == \A x \in CH : Drained(s, x) => s.ch[x].rcv = <<>>
NoSendAfterClose == [][\A x \in CH : s.ch[x].cls => s'.ch[x].cls /\ Len(s'.ch[x].buf) + Len(s'.ch[x].snd) <= Len(s.ch[x].buf) + Len(s.ch[x].snd)]_vars
\* C08: a select waits only if nothing is ready, and takes from one channel only
SelectWaits == \A c \in CO : Blocked(c, {"select"}) => \A x \in 1..2 : ~Avail(s, x) /\ ~s.ch[x].cls
\* C09: the receivers at that moment, each once, nobody later
Bcasts == { v \in 1..h.nv : h.kind[v] = "bcast" }
BcastOnce == ~h.dup /\ \A v \in Bcasts :
  /\ InBuf(v) = {} /\ Pending(v) = {}
  /\ \A c \in CO : Cardinality({ m \in Got(v) : m[1] = c }) + (IF c \in InHand(v) THEN 1 ELSE 0) <= 1
BcastCount == [][\A v \in 1..h'.nv : v > h.nv /\ h'.kind[v] = "bcast" /\ ~s.ch[h'.chan[v]].cls =>
   LET x == h'.chan[v]
       c == h'.from[v]
       w == { d \in CO : Blocked(d, {"recv", "gnext"}) /\ s.co[d].x = x } \cup { d \in CO : Blocked(d, {"select"}) /\ x <= 2 } IN
   s'.co[c].i = Cardinality(w) /\ \A d \in w : s'.co[d].ph = "gr" /\ s'.co[d].v = v]_vars
\* C10: the channel of a generator that ended is closed
GenCloses == [][\A c \in CO : s.co[c].gen # 0 /\ s'.co[c].st = "dead" => s'.ch[s.co[c].gen].cls]_vars
\* C11
Exclusion == \A m \in 1..NM :
  /\ Cardinality(h.hw[m]) <= 1
  /\ h.hw[m] # {} => h.hr[m] = {}
\* C12: first come, first served; nobody waits for a free lock
LockWaiters(m) == { c \in CO : Blocked(c, {"lock", "rdlock", "relock"}) /\ (IF s.co[c].op = "relock" THEN m = 1 ELSE s.co[c].x = m) }
NoIdleLock == \A m \in 1..NM : LockWaiters(m) # {} => s.mu[m].w \/ s.mu[m].r > 0
Leaving(m) == { c \in LockWaiters(m) : s'.co[c].ph = "gr" /\ s'.co[c].st = "op" /\ s'.co[c].r = "OK" }
Fifo == [][\A m \in 1..NM : \A c \in Leaving(m) : \A d \in LockWaiters(m) :
   s.co[c].op # "relock" /\ s.co[d].op # "relock" /\ h.qn[d] < h.qn[c] => d \in Leaving(m)]_vars
\* a lock that is free in the model is held by nobody, and the other way round (somebody who was
\* given the lock and has not returned counts as holding it)
Takers(m) == { c \in CO : s.co[c].st = "op" /\ s.co[c].ph = "gr" /\ ((s.co[c].op \in {"lock", "rdlock", "trylock", "tryrdlock"} /\ s.co[c].r = "OK" /\ s.co[c].x = m)
                           \/ (s.co[c].op = "relock" /\ m = 1)) }
NoLeakedLock == \A m \in 1..NM : (s.mu[m].w \/ s.mu[m].r > 0) =>
   h.hw[m] # {} \/ h.hr[m] # {} \/ Takers(m) # {}
\* C13
CondRelocks == [][\A c \in CO : s.co[c].st = "op" /\ s.co[c].op \in {"cwait", "relock"} /\ s'.co[c].st = "user" /\ ~s'.co[c].cup =>
   (s.co[c].op = "relock" /\ h'.hw[1] = {c}) \/ (s.co[c].op = "cwait" /\ s.co[c].r = "CANCELED")]_vars
CondCount == h.nwoke <= h.nsig
CondWakes == [][\A x \in 1..NV : s.cv[x] # <<>> /\ h'.nsig > h.nsig /\ s'.cv[x] # s.cv[x] => s'.co[Head(s.cv[x])].ph # "bl"]_vars
\* C14
WgZero == \A x \in 1..NW : s.wg[x].n >= 0 /\ (s.wg[x].n = 0 => \A c \in CO : ~(Blocked(c, {"wgwait"}) /\ s.co[c].x = x))
WgOk == [][\A c \in CO : s.co[c].st = "op" /\ s.co[c].op = "wgwait" /\ (s.co[c].ph # "gr" /\ s'.co[c].st = "op" /\ s'.co[c].ph = "gr" /\ s'.co[c].r = "OK")
            => s'.wg[s.co[c].x].n = 0]_vars
\* C15: every accepted cancel is reported once (or still pending, or its target ended)
CancelOnce == \A c \in CO : s.co[c].st # "dead" /\ ~s.co[c].cup =>
  h.ncan[c] = h.nret[c] + (IF s.co[c].can THEN 1 ELSE 0)
     + (IF s.co[c].st = "op" /\ s.co[c].r = "CANCELED" /\ (s.co[c].ph = "gr" \/ s.co[c].op = "relock") THEN 1 ELSE 0)
CancelFirst == [][\A c \in CO : s.co[c].st = "op" /\ s.co[c].ph = "bl" /\ s.co[c].can /\ s'.co[c].st = "user" => h'.nret[c] = h.nret[c] + 1 \/ s'.co[c].cup]_vars
\* C16: handlers run in reverse order, once; none is left when an unwinding coroutine ends
ReverseOrder == \A c \in CO : s.co[c].st # "dead" =>
  h.hp[c] = IF s.co[c].pex # 0 THEN Append(s.co[c].cl, s.co[c].pex) ELSE s.co[c].cl
AllRun == \A c \in CO : s.co[c].st = "dead" => h.hp[c] = <<>>
NoneWithout == ~h.dup /\ \A i \in h.hx : i <= h.nh
\* C03
JoinDone == [][\A c \in CO : s.co[c].st = "op" /\ s.co[c].op = "join" /\ s.co[c].ph = "gr" /\ s.co[c].r = "OK" =>
   s.co[c].x = 0 \/ ~Alive(s, s.co[c].x)]_vars
NoJoinDead == \A c \in CO : Blocked(c, {"join", "cancel"}) => Alive(s, s.co[c].x)
\* C04
OnTime == [][\A c \in CO : s.co[c].st = "op" /\ s.co[c].ph = "bl" /\ s'.co[c].st = "user" /\ ~s'.co[c].cup /\ h'.nret[c] = h.nret[c] /\ s.co[c].op # "sigwait"
   => Expired(s.co[c].dl, t)]_vars
\* C17: only a resume, a cancel or the deadline ends a suspend
ResumeWakes == [][\A c \in CO : Blocked(c, {"suspend"}) /\ s'.co[c].st = "op" /\ s'.co[c].ph = "gr" =>
   \E d \in CO : d # c /\ s'.co[d].op = "resume" /\ s'.co[d].x = c /\ s.co[d].st = "user" /\ s'.co[d].r = "OK"]_vars
ResumeOk == [][\A c \in CO : s.co[c].st = "user" /\ s'.co[c].st = "op" /\ s'.co[c].op = "resume" =>
   (Blocked(s'.co[c].x, {"suspend"}) => s'.co[c].r = "OK" /\ s'.co[s'.co[c].x].ph = "gr")]_vars
\* C21
SignalsKept == \A g \in 1..NSG : h.rz[g] = h.sg[g] + s.sig[g]
\* C22
WorkOnce == \A c \in CO : h.wbeg[c] >= h.wend[c]
WorkDone == [][\A c \in CO : s.co[c].st = "op" /\ s.co[c].op = "work" /\ s'.co[c].st # "op" => s.co[c].ph = "gr" /\ h.wbeg[c] = h.wend[c]]_vars
WorkOneAtATime == \A c, d \in CO : c # d /\ s.co[c].st = "op" /\ s.co[d].st = "op" /\ s.co[c].ph = "wr" /\ s.co[d].ph = "wr" => s.co[c].x # s.co[d].x \/ s.co[c].x = 0
\* all queues hold exactly those that wait (C02, C25)
Consistent ==
  /\ \A x \in CH : \A i \in 1..Len(s.ch[x].rcv) : LET c == s.ch[x].rcv[i].c IN Blocked(c, {"recv", "gnext", "select"})
  /\ \A x \in CH : \A i \in 1..Len(s.ch[x].snd) : LET c == s.ch[x].snd[i].c IN Blocked(c, {"send", "gyield"})
  /\ \A m \in 1..NM : \A i \in 1..Len(s.mu[m].q) : s.mu[m].q[i].c \in LockWaiters(m)
  /\ \A m \in 1..NM : Cardinality(LockWaiters(m)) = Len(s.mu[m].q)
  /\ \A x \in 1..NV : \A i \in 1..Len(s.cv[x]) : Blocked(s.cv[x][i], {"cwait"})
  /\ \A x \in 1..NW : Cardinality({ c \in CO : Blocked(c, {"wgwait"}) /\ s.co[c].x = x }) = Len(s.wg[x].q)
  /\ \A c \in CO : s.co[c].st = "dead" => s.co[c] = [CoFree EXCEPT !.st = "dead"]
  /\ Stats(s).coroutines = Cardinality({ c \in CO : s.co[c].st \notin {"free", "dead"} })
\* nobody is stuck for good: who waits without a deadline waits for somebody (for the runtime's idle rule)
Progress == IdleOk(s, IF t < T THEN t ELSE T) => \A c \in CO : s.co[c].st = "op" => s.co[c].ph = "bl" /\ (~s.co[c].can \/ s.co[c].op = "relock")
=============================================================================
