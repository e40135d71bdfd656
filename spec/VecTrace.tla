------------------------------ MODULE VecTrace ------------------------------
(***************************************************************************)
(* Binding of module Vec2d to the code, in both directions.                *)
(*   Mode "trace": every session recorded from the real object must be a   *)
(*      behaviour of Vec2d; each event has to match an action, with the    *)
(*      reply and the full projection of all objects (a mismatch is a      *)
(*      deadlock).                                                         *)
(*   Mode "gen": TLC explores the operations `Ops` and prints, for every   *)
(*      transition, a history that leads there and the projection that     *)
(*      the real objects must show then.                                   *)
(***************************************************************************)
EXTENDS Vec2d, Json, TLC, IOUtils

CONSTANT OpNames     \* operations in this run ("gen" mode)

TraceFile == IOEnv.TRACE
Log == ndJsonDeserialize(TraceFile)

Perform(e) ==
    CASE e.op = "new"      -> New(e.s)
      [] e.op = "collect"  -> Collect(e.s, e.ss)
      [] e.op = "clear"    -> Clear(e.s)
      [] e.op = "push"     -> Push(e.s, e.x)
      [] e.op = "fill"     -> Upd(e.s, FoldLeft(DoPush, slots[e.s], e.l), NoReply)   \* many pushes
      [] e.op = "pop"      -> Pop(e.s)
      [] e.op = "next"     -> NextSet(e.s)
      [] e.op = "set"      -> ExtendSet(e.s, e.l)
      [] e.op = "extend"   -> Extend(e.s, e.ss)
      [] e.op = "truncate" -> Truncate(e.s, e.n)
      [] e.op = "chart"    -> TruncChart(e.s, e.n)
      [] e.op = "sort"     -> SortLast(e.s)
      [] e.op = "poke"     -> Poke(e.s, e.i, e.x)
      [] e.op \in {"clone", "assign", "miniserde", "serde"} -> Copy(e.s, e.t)
      [] OTHER -> FALSE

Projection == [s \in Slots |-> Obs(slots[s])]

VARIABLES sess, l, hist

\* ---- recorded sessions ----
TInit == Init /\ sess \in 1..Len(Log) /\ l = 1 /\ hist = <<>>
Events == Log[sess].ops
TNext == \/ /\ l <= Len(Events)
            /\ Perform(Events[l])
            /\ reply' = Events[l].reply
            /\ Projection' = Events[l].obs
            /\ l' = l + 1
            /\ UNCHANGED <<sess, hist>>
         \/ l > Len(Events) /\ UNCHANGED <<vars, sess, l, hist>>
TSpec == TInit /\ [][TNext]_<<vars, sess, l, hist>>

\* ---- generated histories ----
Op(n) == n \in OpNames
GenOps ==
    UNION { IF Op("push")  THEN {[op |-> "push", s |-> s, x |-> x] : s \in Slots, x \in Items} ELSE {},
            IF Op("pop")   THEN {[op |-> "pop", s |-> s] : s \in Slots} ELSE {},
            IF Op("next")  THEN {[op |-> "next", s |-> s] : s \in Slots} ELSE {},
            IF Op("clear") THEN {[op |-> "clear", s |-> s] : s \in Slots} ELSE {},
            IF Op("new")   THEN {[op |-> "new", s |-> s, n |-> n] : s \in Slots, n \in {0, 1, 5}} ELSE {},
            IF Op("set")   THEN {[op |-> "set", s |-> s, l |-> x] : s \in Slots, x \in Lists} ELSE {},
            IF Op("extend") THEN {[op |-> "extend", s |-> s, ss |-> x] : s \in Slots, x \in SetLists} ELSE {},
            IF Op("collect") THEN {[op |-> "collect", s |-> s, ss |-> x] : s \in Slots, x \in SetLists} ELSE {},
            IF Op("truncate") THEN {[op |-> "truncate", s |-> s, n |-> n] : s \in Slots, n \in 0..4} ELSE {},
            IF Op("chart") THEN {[op |-> "chart", s |-> s, n |-> n] : s \in Slots, n \in 0..5} ELSE {},
            IF Op("sort")  THEN {[op |-> "sort", s |-> s] : s \in Slots} ELSE {},
            IF Op("poke")  THEN {[op |-> "poke", s |-> s, i |-> 1, x |-> x] : s \in Slots, x \in Items} ELSE {} }
    \cup {[op |-> c, s |-> s, t |-> t] :
            c \in OpNames \cap {"clone", "assign", "miniserde", "serde"}, s \in Slots, t \in Slots}

CONSTANTS MaxClosed, MaxItems, MaxHist, Window
Bounded(o) == Len(o.closed) <= MaxClosed /\ Len(Chart(o)) <= MaxItems
GInit == Init /\ sess = 0 /\ l = 0 /\ hist = <<>>
GNext == /\ Len(hist) < MaxHist
         /\ \E e \in GenOps : Perform(e) /\ hist' = Append(hist, e)
         /\ UNCHANGED <<sess, l>>
GSpec == GInit /\ [][GNext]_<<vars, sess, l, hist>>
GBound == \A s \in Slots : Bounded(slots[s])
\* The last Window operations are part of the view: what an operation does may
\* depend on what was just done, although the abstract value is the same.
GView == <<slots, SubSeq(hist, IF Len(hist) > Window THEN Len(hist) - Window + 1 ELSE 1, Len(hist))>>
OneObjectG == [][\E s \in Slots : \A t \in Slots \ {s} : slots'[t] = slots[t]]_<<vars, sess, l, hist>>
Emit == PrintT(<<"GEN", ToJson([ops |-> hist', reply |-> reply', obs |-> Projection'])>>)
=============================================================================
