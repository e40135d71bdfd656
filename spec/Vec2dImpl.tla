----------------------------- MODULE Vec2dImpl -----------------------------
(***************************************************************************)
(* How gearley-vec2d represents it: one flat chart and the start index of  *)
(* every set.  TLC checks that each operation on the representation        *)
(* refines the operation of module Vec2d (refinement mapping AbsOf), which *)
(* also shows why the callers' preconditions are needed.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Functions

CONSTANTS Slots, Items, MaxSets, MaxChart, MaxIndices
VARIABLES chart, indices, reply     \* of the one object in Slots
ivars == <<chart, indices, reply>>

S == CHOOSE s \in Slots : TRUE
SetAt(i) == SubSeq(chart, indices[i] + 1, indices[i + 1])
AbsOf == [s \in Slots |->
           [closed |-> [i \in 1..(Len(indices) - 1) |-> SetAt(i)],
            cur    |-> SubSeq(chart, Last(indices) + 1, Len(chart))]]

A == INSTANCE Vec2d WITH slots <- AbsOf

IInit == chart = <<>> /\ indices = <<0>> /\ reply = A!NoReply

IPush(x)  == chart' = Append(chart, x) /\ UNCHANGED indices /\ reply' = A!NoReply
IPop      == /\ Last(indices) < Len(chart) \/ chart = <<>>
             /\ chart' = IF chart = <<>> THEN chart ELSE Front(chart)
             /\ reply' = IF chart = <<>> THEN A!NoReply ELSE A!Value(Last(chart))
             /\ UNCHANGED indices
INext     == indices' = Append(indices, Len(chart)) /\ UNCHANGED chart /\ reply' = A!NoReply
IClear    == chart' = <<>> /\ indices' = <<0>> /\ reply' = A!NoReply
ISet(l)   == chart' = chart \o l /\ indices' = Append(indices, Len(chart')) /\ reply' = A!NoReply
\* copy_within(last.., start); truncate; truncate the indices
ITruncate(n) == LET start == indices[n + 1]
                    mv    == SubSeq(chart, Last(indices) + 1, Len(chart))
                IN /\ n + 1 \in 1..Len(indices)
                   /\ chart' = SubSeq(chart, 1, start) \o mv
                   /\ indices' = SubSeq(indices, 1, n + 1)
                   /\ reply' = A!NoReply
IChart(n) == /\ n >= Last(indices)
             /\ chart' = IF n < Len(chart) THEN SubSeq(chart, 1, n) ELSE chart
             /\ UNCHANGED indices /\ reply' = A!NoReply

INextStep == \/ IPop \/ INext \/ IClear
             \/ \E x \in Items : IPush(x)
             \/ \E l \in A!Lists : ISet(l)
             \/ \E n \in 0..(Len(indices) - 1) : ITruncate(n)
             \/ \E n \in 0..MaxChart : IChart(n)
ISpec == IInit /\ [][INextStep]_ivars

Bound == Len(chart) <= MaxChart /\ Len(indices) <= MaxIndices
IndexInv == /\ indices[1] = 0
            /\ \A i \in 1..(Len(indices) - 1) : indices[i] <= indices[i + 1]
            /\ Last(indices) <= Len(chart)
Refines == A!Spec
=============================================================================
