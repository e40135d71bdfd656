----------------------------- MODULE CartTrace -----------------------------
(***************************************************************************)
(* Binding of module Cartesian to the code: recorded sessions ("TSpec")    *)
(* and generated histories ("GSpec"), as in VecTrace.                      *)
(***************************************************************************)
EXTENDS Cartesian, Json, TLC, IOUtils

CONSTANTS OpNames, MaxFactors, MaxHist, MaxRound, Window

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sess, l, hist

Perform(e) ==
    CASE e.op = "new"     -> New
      [] e.op = "clear"   -> Clear
      [] e.op = "push"    -> Push(e.f)
      [] e.op = "extend"  -> Extend(e.fs)
      [] e.op = "advance" -> Advance
      [] e.op = "advances" -> Advances(e.n)
      [] OTHER -> FALSE

TInit == Init /\ sess \in 1..Len(Log) /\ l = 1 /\ hist = <<>>
Events == Log[sess].ops
TNext == \/ /\ l <= Len(Events)
            /\ Perform(Events[l])
            /\ reply' = Events[l].reply
            /\ Tuple' = Events[l].tuple
            /\ l' = l + 1
            /\ UNCHANGED <<sess, hist>>
         \/ l > Len(Events) /\ UNCHANGED <<vars, sess, l, hist>>
TSpec == TInit /\ [][TNext]_<<vars, sess, l, hist>>

Op(n) == n \in OpNames
Some == UNION {[1..k -> Pool] : k \in 0..2}
GenOps == UNION { IF Op("push") THEN {[op |-> "push", f |-> f] : f \in Pool} ELSE {},
                  IF Op("extend") THEN {[op |-> "extend", fs |-> fs] : fs \in Some} ELSE {},
                  IF Op("new") THEN {[op |-> "new"]} ELSE {},
                  IF Op("clear") THEN {[op |-> "clear"]} ELSE {},
                  IF Op("advance") THEN {[op |-> "advance"]} ELSE {} }
Small(fs) == Len(fs) <= MaxFactors
GInit == Init /\ sess = 0 /\ l = 0 /\ hist = <<>>
GNext == /\ Len(hist) < MaxHist
         /\ \E e \in GenOps : Perform(e) /\ hist' = Append(hist, e)
         /\ UNCHANGED <<sess, l>>
GSpec == GInit /\ [][GNext]_<<vars, sess, l, hist>>
GBound == Small(factors)
GView == <<factors, pos, SubSeq(hist, IF Len(hist) > Window THEN Len(hist) - Window + 1 ELSE 1, Len(hist))>>
\* The property is about full rounds, so `seen` must be part of the state for it.
ExactlyOnceG == [][
    /\ (reply'[1] = "bool" /\ reply' = BoolReply(FALSE) /\ First(factors) \in seen) => seen = Combos(factors)
    /\ (reply' = BoolReply(TRUE)) => pos' \notin seen]_<<vars, sess, l, hist>>
FullView == <<factors, pos, seen>>
Emit == PrintT(<<"GEN", ToJson([ops |-> hist', reply |-> reply', tuple |-> Tuple'])>>)
=============================================================================
