------------------------------- MODULE Vec2d -------------------------------
(***************************************************************************)
(* The two-dimensional vector (gearley-vec2d) as its users see it: a       *)
(* sequence of closed sets followed by one set in progress.  Several       *)
(* objects live side by side in `slots`, so that the independence of       *)
(* copies can be stated.                                                   *)
(*                                                                         *)
(* One action per public operation; the linearization point is the return  *)
(* of the call.  `reply` is what the call returned.  Preconditions of the  *)
(* operations (the caller's part of the contract) are the enabling         *)
(* conditions of the actions.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Functions

CONSTANTS Slots,   \* object names
          Items,   \* item values
          MaxSets  \* how many sets one `extend`/`collect` call brings (model only)

VARIABLES slots,   \* [Slots -> [closed : Seq(Seq(Item)), cur : Seq(Item)]]
          reply

vars == <<slots, reply>>

NoReply == <<"none">>
Value(x) == <<"item", x>>

Empty == [closed |-> <<>>, cur |-> <<>>]

\* ---- the abstract value and what can be read from it ----
\* All items in turn, and where each set begins.  In runs of 400 sets, which is
\* what keeps TLC's cost down on objects of very many sets.
Runs(ss) == TLCEval([k \in 1..((Len(ss) + 399) \div 400) |->
                        SubSeq(ss, 400 * (k - 1) + 1, IF 400 * k < Len(ss) THEN 400 * k ELSE Len(ss))])
Flat(ss) == FoldLeft(LAMBDA l, r : l \o FoldLeft(LAMBDA m, t : m \o t, <<>>, r), <<>>, Runs(ss))
From(n, r) == Tail(FoldLeft(LAMBDA is, t : Append(is, Last(is) + Len(t)), <<n>>, r))
Indices(ss) == FoldLeft(LAMBDA is, r : is \o From(Last(is), r), <<0>>, Runs(ss))
Chart(o)  == Flat(o.closed) \o o.cur
SumLen(ss) == FoldLeft(LAMBDA n, t : n + Len(t), 0, ss)
Start(o)  == SumLen(o.closed)                    \* where the set in progress begins
NumSets(o) == Len(o.closed) + 1                  \* len()
IndexAt(o, i) == SumLen(SubSeq(o.closed, 1, i))  \* index_at(i), 0 <= i < len()
LastItem(o) == IF Chart(o) = <<>> THEN NoReply ELSE Value(Last(Chart(o)))

\* The complete projection of one object that the driver reads back after
\* every operation.
Obs(o) == [ len      |-> NumSets(o),
            sets     |-> o.closed,
            last     |-> o.cur,
            chart    |-> Chart(o),
            index    |-> Indices(o.closed),
            count    |-> Len(Chart(o)),
            lastitem |-> LastItem(o),
            \* asking for a set or an item that is not there yields none
            beyond   |-> TRUE ]

\* ---- the effect of each operation ----
DoPush(o, x)   == [o EXCEPT !.cur = Append(@, x)]
CanPop(o)      == o.cur # <<>> \/ Chart(o) = <<>>
DoPop(o)       == IF o.cur = <<>> THEN o ELSE [o EXCEPT !.cur = Front(@)]
PopReply(o)    == IF o.cur = <<>> THEN NoReply ELSE Value(Last(o.cur))
DoNext(o)      == [closed |-> Append(o.closed, o.cur), cur |-> <<>>]
DoSet(o, s)    == [closed |-> Append(o.closed, o.cur \o s), cur |-> <<>>]
\* one set after the other
DoExtend(o, ss) == IF ss = <<>> THEN o
                   ELSE [closed |-> Append(o.closed, o.cur \o ss[1]) \o Tail(ss), cur |-> <<>>]
CanTruncate(o, n) == n \in 0..Len(o.closed)
DoTruncate(o, n)  == [o EXCEPT !.closed = SubSeq(@, 1, n)]
CanChart(o, n) == n >= Start(o)
DoChart(o, n)  == [o EXCEPT !.cur = IF n - Start(o) < Len(@) THEN SubSeq(@, 1, n - Start(o)) ELSE @]
DoSort(o)      == [o EXCEPT !.cur = SortSeq(@, LAMBDA a, b : a < b)]
CanPoke(o, i)  == i \in 1..Len(o.cur)
DoPoke(o, i, x) == [o EXCEPT !.cur[i] = x]

\* ---- actions ----
Upd(s, o, r) == slots' = [slots EXCEPT ![s] = o] /\ reply' = r

New(s)          == Upd(s, Empty, NoReply)             \* new / default / with_capacity
Collect(s, ss)  == Upd(s, DoExtend(Empty, ss), NoReply)
Clear(s)        == Upd(s, Empty, NoReply)
Push(s, x)      == Upd(s, DoPush(slots[s], x), NoReply)
Pop(s)          == CanPop(slots[s]) /\ Upd(s, DoPop(slots[s]), PopReply(slots[s]))
NextSet(s)      == Upd(s, DoNext(slots[s]), NoReply)
ExtendSet(s, t) == Upd(s, DoSet(slots[s], t), NoReply)
Extend(s, ss)   == Upd(s, DoExtend(slots[s], ss), NoReply)
Truncate(s, n)  == CanTruncate(slots[s], n) /\ Upd(s, DoTruncate(slots[s], n), NoReply)
TruncChart(s, n) == CanChart(slots[s], n) /\ Upd(s, DoChart(slots[s], n), NoReply)
SortLast(s)     == Upd(s, DoSort(slots[s]), NoReply)
Poke(s, i, x)   == CanPoke(slots[s], i) /\ Upd(s, DoPoke(slots[s], i, x), NoReply)
\* clone, or encode and decode again: a second object with the same value
Copy(s, t)      == s # t /\ Upd(t, slots[s], NoReply)

Init == slots = [s \in Slots |-> Empty] /\ reply = NoReply

Lists == {<<>>} \cup {<<x>> : x \in Items} \cup {<<x, y>> : x, y \in Items}
SetLists == UNION {[1..k -> Lists] : k \in 0..MaxSets}

Next == \E s \in Slots :
          \/ New(s) \/ Clear(s) \/ Pop(s) \/ NextSet(s) \/ SortLast(s)
          \/ \E x \in Items : Push(s, x) \/ \E i \in 1..3 : Poke(s, i, x)
          \/ \E l \in Lists : ExtendSet(s, l)
          \/ \E ss \in SetLists : Extend(s, ss) \/ Collect(s, ss)
          \/ \E n \in 0..4 : Truncate(s, n)
          \/ \E n \in 0..8 : TruncChart(s, n)
          \/ \E t \in Slots : Copy(s, t)

Spec == Init /\ [][Next]_vars

\* ---- properties of the design ----
TypeOK == /\ slots \in [Slots -> [closed : Seq(Seq(Int)), cur : Seq(Int)]]

\* The sets partition the chart: nothing lost, nothing shared.
Partition == \A s \in Slots : LET o == slots[s] IN
    /\ Indices(o.closed) = [i \in 1..NumSets(o) |-> IndexAt(o, i - 1)]
    /\ Len(Chart(o)) = IndexAt(o, Len(o.closed)) + Len(o.cur)
    /\ \A i \in 1..Len(o.closed) :
          o.closed[i] = SubSeq(Chart(o), IndexAt(o, i - 1) + 1, IndexAt(o, i))

\* Closed sets never change except by being dropped from the end, or when the
\* object is replaced altogether; an operation touches one object only.
OneObject == [][\E s \in Slots : \A t \in Slots \ {s} : slots'[t] = slots[t]]_vars
ClosedFrozen == [][\A s \in Slots :
      \/ IsPrefix(slots[s].closed, slots'[s].closed)
      \/ IsPrefix(slots'[s].closed, slots[s].closed)
      \/ slots'[s].closed = <<>>
      \/ \E t \in Slots \ {s} : slots'[s] = slots[t]
      \/ \E ss \in SetLists : slots'[s] = DoExtend(Empty, ss)]_vars
=============================================================================
