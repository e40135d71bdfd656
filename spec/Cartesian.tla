----------------------------- MODULE Cartesian -----------------------------
(***************************************************************************)
(* The cartesian product enumerator of gearley-utils.  A factor is a slice *)
(* <<first, length>> of one array of elements 1, 2, ..; slices may overlap *)
(* or be the same.  The current combination is one position per factor;    *)
(* `advance` is an odometer whose first wheel is the fastest, and whose    *)
(* return value says that the combination is one more of the round (FALSE: *)
(* it has wrapped to the first one).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

CONSTANTS Pool         \* set of factors <<first, length>>, length at least 1 (model only)

VARIABLES factors,     \* sequence of pairs <<first, length>>
          pos,         \* the current position in every factor, 1-based
          reply,
          seen         \* combinations since the factors last changed (history)
vars == <<factors, pos, reply, seen>>

NoReply == <<"none">>
BoolReply(b) == <<"bool", b>>
First(fs) == [i \in 1..Len(fs) |-> 1]

\* what `as_slice` shows: for every factor an element
Tuple == [i \in 1..Len(factors) |-> factors[i][1] + pos[i] - 1]

AtEnd(fs, p) == \A i \in 1..Len(fs) : p[i] = fs[i][2]
\* Wheels before the first one that is not at its end go back to 1.
Step(fs, p) ==
    IF AtEnd(fs, p) THEN First(fs)
    ELSE LET k == CHOOSE k \in 1..Len(fs) :
                    /\ p[k] < fs[k][2]
                    /\ \A j \in 1..(k - 1) : p[j] = fs[j][2]
         IN [i \in 1..Len(fs) |-> IF i < k THEN 1 ELSE IF i = k THEN p[i] + 1 ELSE p[i]]

New   == factors' = <<>> /\ pos' = <<>> /\ reply' = NoReply /\ seen' = {<<>>}
Clear == New
Add(fs) == /\ factors' = factors \o fs
           /\ pos' = pos \o First(fs)
           /\ reply' = NoReply
           /\ seen' = {pos'}
Push(f)    == Add(<<f>>)
Extend(fs) == Add(fs)
Advance == /\ pos' = Step(factors, pos)
           /\ reply' = BoolReply(~AtEnd(factors, pos))
           /\ UNCHANGED factors
           /\ seen' = IF AtEnd(factors, pos) THEN {pos'} ELSE seen \cup {pos'}

\* The same, n steps at once: combinations are numbers whose digits are the positions.
RECURSIVE Weight(_, _)
Weight(fs, k) == IF k = 0 THEN 1 ELSE fs[k][2] * Weight(fs, k - 1)   \* of factor k + 1
RECURSIVE Number(_, _, _)
Number(fs, p, k) == IF k = 0 THEN 0 ELSE (p[k] - 1) * Weight(fs, k - 1) + Number(fs, p, k - 1)
Digits(fs, m) == [i \in 1..Len(fs) |-> ((m \div Weight(fs, i - 1)) % fs[i][2]) + 1]
After(fs, p, n) == Digits(fs, (Number(fs, p, Len(fs)) + n) % Weight(fs, Len(fs)))
WrapsIn(fs, p, n) == (Number(fs, p, Len(fs)) + n) \div Weight(fs, Len(fs))
Advances(n) == /\ pos' = After(factors, pos, n)
               /\ reply' = <<"wraps", WrapsIn(factors, pos, n)>>
               /\ UNCHANGED factors
               /\ seen' = {pos'}

Init == factors = <<>> /\ pos = <<>> /\ reply = NoReply /\ seen = {<<>>}

\* ---- design properties ----
InRange == /\ Len(pos) = Len(factors)
           /\ \A i \in 1..Len(factors) : pos[i] \in 1..factors[i][2]
RECURSIVE Steps(_, _, _)
Steps(fs, p, n) == IF n = 0 THEN p ELSE Steps(fs, Step(fs, p), n - 1)
AdvancesAreSteps == \A n \in 0..9 :
    /\ After(factors, pos, n) = Steps(factors, pos, n)
    /\ WrapsIn(factors, pos, n) = Cardinality({k \in 0..(n - 1) : AtEnd(factors, Steps(factors, pos, k))})
Combos(fs) == {p \in [1..Len(fs) -> 1..Max({1} \cup {fs[i][2] : i \in 1..Len(fs)})] :
                 \A i \in 1..Len(fs) : p[i] <= fs[i][2]}
\* A round that began at the first combination has visited every one when it
\* wraps, and none of them twice.
ExactlyOnce == [][
    /\ (reply'[1] = "bool" /\ reply' = BoolReply(FALSE) /\ First(factors) \in seen)
          => seen = Combos(factors)
    /\ (reply'[1] = "bool" /\ reply' = BoolReply(TRUE)) => pos' \notin seen]_vars
=============================================================================
