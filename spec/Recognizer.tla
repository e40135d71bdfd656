----------------------------- MODULE Recognizer -----------------------------
(***************************************************************************)
(* How gearley-recognizer computes what module Earley requires: the state  *)
(* the code keeps (retained sets only, a prediction matrix, completions    *)
(* waiting in order), one action per call or per completed group.          *)
(*                                                                         *)
(*   medial : the sets that are kept, as sets of <<dot, origin>>; origins  *)
(*            are numbers of kept sets, the set numbers of the interface   *)
(*   cur    : the set in progress                                          *)
(*   rows   : predictions, one row more than kept sets                     *)
(*   heap   : completed items <<dot, origin, mid>> that wait; `mid` is the *)
(*            set where the last symbol begins, so that two derivations of *)
(*            one item are two elements                                    *)
(*                                                                         *)
(* History variables (they have no influence): `abs`, the absolute number  *)
(* of every kept set; `epred`, `emed`, what module Earley says; `groups`,  *)
(* the groups completed at this location; `script`, the calls so far.      *)
(*                                                                         *)
(* TLC checks, for every grammar of a file and every input within bounds,  *)
(* that this refines module Earley (Refines), that acceptance and failure  *)
(* agree with module CFG (Agrees), that groups are complete when they are  *)
(* taken (GroupsOnce), and that a true hint loses nothing (HintSafe).      *)
(***************************************************************************)
EXTENDS Earley, CFG, Json, IOUtils

CONSTANTS MaxLen,       \* locations per input (the start of input included)
          MaxAlt,       \* tokens per location
          WithHints, WithReset,
          WithLong,     \* tokens longer than a location (not together with hints)
          Emitting

Grammars == ndJsonDeserialize(IOEnv.GRAMMARS)

VARIABLES gi, P, medial, cur, rows, heap, phase, toks, long, edges, hint, input,
          abs, epred, emed, groups, before, due, runs, script
vars == <<gi, P, medial, cur, rows, heap, phase, toks, long, edges, hint, input, abs, epred, emed, groups, before, due, runs, script>>
G == Grammars[gi]

Tokens == Ordinary(G) \ Heads(G)
Follow(t, h) == h = -1 \/ h \in ToSet(G.follow[t + 1])
FirstH(t, h) == h = -1 \/ h \in ToSet(G.first[t + 1])
\* lookahead_set(dot), lhs_lr_set(lhs)
Useful(d, h) == IF IsUnary(G, d) THEN IsGen(G, Lhs(G, d)) \/ Follow(Lhs(G, d), h) ELSE FirstH(Rhs1(G, d), h)
UsefulLhs(d, h) == IsGen(G, Lhs(G, d)) \/ Follow(Lhs(G, d), h)

\* complete(set, sym): what it adds to the set in progress and to the heap
Medials(o, x) == IF IsGen(G, x) \/ x \notin rows[o + 1] THEN {}
                 ELSE {<<it[1], it[2], o>> : it \in {it \in medial[o + 1] : Rhs1(G, it[1]) = x /\ UsefulLhs(it[1], hint)}}
Transitions(o, x) == IF IsGen(G, x) THEN {d \in P.by0[x] : P.own[Lhs(G, d)] \in rows[o + 1]}
                     ELSE IF x \notin rows[o + 1] THEN {}
                     ELSE {d \in P.by0[x] : P.own[Lhs(G, d)] \in rows[o + 1] /\ Useful(d, hint)}
ToCur(o, x)  == {<<d, o>> : d \in {d \in Transitions(o, x) : ~IsUnary(G, d)}}
ToHeap(o, x) == Medials(o, x) \cup {<<d, o, o>> : d \in {d \in Transitions(o, x) : IsUnary(G, d)}}

\* The next group: the greatest (origin, rule number).
Key(it) == <<it[2], it[1]>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Top == CHOOSE it \in heap : \A other \in heap : ~Less(Key(it), Key(other))
\* Taken as long as the greatest one belongs to the group.
RECURSIVE Taken(_, _, _)
Taken(h, o, lhs) ==
    IF h = {} THEN {}
    ELSE LET it == CHOOSE it \in h : \A other \in h : ~Less(Key(it), Key(other))
         IN IF it[2] = o /\ Lhs(G, it[1]) = lhs THEN {it} \cup Taken(h \ {it}, o, lhs) ELSE {}

Call(e) == script' = IF Emitting THEN Append(script, e) ELSE script

RInit == /\ gi \in 1..Len(Grammars)
         /\ P = Prep(G)
         /\ medial = <<>> /\ cur = {} /\ rows = <<P.closure[G.start]>> /\ heap = {}
         /\ phase = "idle" /\ toks = {} /\ long = {} /\ edges = {} /\ hint = -1 /\ input = <<>>
         /\ abs = <<>> /\ epred = <<Pred0(G, P)>> /\ emed = <<{}>> /\ groups = {} /\ before = {}
         /\ due = -1 /\ runs = 1 /\ script = <<>>

\* begin_earleme: the set in progress becomes the last kept one
Begin == /\ phase = "idle" /\ Len(input) < MaxLen
         /\ Len(input) > 0 => cur # {}
         /\ phase' = "open" /\ toks' = {} /\ long' = {} /\ groups' = {}
         /\ medial' = Append(medial, cur) /\ cur' = {}
         /\ abs' = Append(abs, Len(input))
         /\ Call([op |-> "begin"])
         /\ UNCHANGED <<gi, P, rows, heap, edges, hint, input, epred, emed, before, due, runs>>

SetHint(h) == /\ WithHints /\ phase = "open" /\ toks = {} /\ hint = -1
              /\ Len(input) > 0     \* (the same for the start of the input)
              /\ hint' = h
              /\ Call([op |-> "hint", sym |-> h])
              /\ UNCHANGED <<gi, P, medial, cur, rows, heap, phase, toks, long, edges, input, abs, epred, emed, groups, before, due, runs>>

Scan(t) == /\ phase = "open" /\ Cardinality(toks) < MaxAlt
           /\ \A u \in toks : u < t       \* (every set of tokens once)
           /\ long = {}
           /\ due # -1 => t = due         \* what was announced comes
           /\ toks' = toks \cup {t}
           /\ LET o == Len(medial) - 1
              IN /\ cur' = cur \cup ToCur(o, t)
                 /\ heap' = heap \cup ToHeap(o, t)
           /\ Call([op |-> "scan", sym |-> t, value |-> 7])
           /\ UNCHANGED <<gi, P, medial, rows, phase, long, edges, hint, input, abs, epred, emed, groups, before, due, runs>>

\* complete(set, token, node): a token that began at the kept set o
ScanLong(t, o) == /\ WithLong /\ phase = "open" /\ o < Len(medial) - 1
                  /\ Cardinality(long) < 1     \* (one at a location)
                  /\ long' = long \cup {<<t, abs[o + 1]>>}
                  /\ edges' = edges \cup {<<t, abs[o + 1], Len(input) + 1>>}
                  /\ cur' = cur \cup ToCur(o, t)
                  /\ heap' = heap \cup ToHeap(o, t)
                  /\ Call([op |-> "span", sym |-> t, back |-> Len(medial) - 1 - o])
                  /\ UNCHANGED <<gi, P, medial, rows, phase, toks, hint, input, abs, epred, emed, groups, before, due, runs>>

\* end_earleme when nothing was read that can go on: the end of this input
Exhausted == cur = {} /\ heap = {}
Fail == /\ phase = "open" /\ (toks # {} \/ long # {}) /\ Exhausted
        /\ phase' = "failed" /\ input' = Append(input, toks)
        /\ epred' = epred /\ emed' = emed
        /\ Call([op |-> "end"])
        /\ UNCHANGED <<gi, P, medial, cur, rows, heap, toks, long, edges, hint, abs, groups, before, due, runs>>

\* end_earleme up to the completion loop
StartCompletion == /\ phase = "open" /\ ~Exhausted
                   /\ phase' = "completing"
                   /\ before' = heap
                   /\ UNCHANGED <<gi, P, medial, cur, rows, heap, toks, long, edges, hint, input, abs, epred, emed, groups, due, runs, script>>

\* next_sum, next_summand.., complete_sum
Group == /\ phase = "completing" /\ heap # {}
         /\ LET o == Top[2]
                x == Lhs(G, Top[1])
                t == Taken(heap, o, x)
            IN /\ groups' = groups \cup {<<x, o, t>>}
               /\ cur' = cur \cup ToCur(o, x)
               /\ heap' = (heap \ t) \cup ToHeap(o, x)
               \* nothing that was taken before comes again, and nothing of an
               \* ordinary symbol's group is missing when it is taken
               /\ before' = before \cup ToHeap(o, x)
         /\ UNCHANGED <<gi, P, medial, rows, phase, toks, long, edges, hint, input, abs, epred, emed, due, runs, script>>

\* the rest of end_earleme: unreachable sets are dropped, the next row predicted
MaxOrigin == CHOOSE m \in {it[2] : it \in cur} \cup {0} : \A it \in cur : it[2] <= m
Close == /\ phase = "completing" /\ heap = {}
         /\ LET n == Len(medial) - 1
                keep == IF cur = {} \/ MaxOrigin = 0 \/ MaxOrigin >= n THEN n ELSE MaxOrigin
                step == StepLong(G, P, epred, emed, toks, long, {}, {})
            IN /\ medial' = SubSeq(medial, 1, keep + 1)
               /\ rows' = Append(SubSeq(rows, 1, keep + 1), UNION {P.closure[Rhs1(G, it[1])] : it \in cur})
               /\ abs' = SubSeq(abs, 1, keep + 1)
               /\ epred' = Append(epred, PredOf(G, P, step.med))
               /\ emed' = Append(emed, step.med)
         /\ phase' = "idle" /\ input' = Append(input, toks)
         /\ due' = hint
         /\ hint' = -1
         /\ Call([op |-> "end"])
         /\ UNCHANGED <<gi, P, cur, heap, toks, long, edges, groups, before, runs>>

Reset == /\ WithReset /\ runs < 2 /\ phase # "completing"
         /\ Len(input) > 0
         /\ medial' = <<>> /\ cur' = {} /\ rows' = <<P.closure[G.start]>> /\ heap' = {}
         /\ phase' = "idle" /\ toks' = {} /\ long' = {} /\ edges' = {} /\ hint' = -1 /\ input' = <<>>
         /\ abs' = <<>> /\ epred' = <<Pred0(G, P)>> /\ emed' = <<{}>> /\ groups' = {} /\ before' = {}
         /\ due' = -1 /\ runs' = runs + 1
         /\ Call([op |-> "reset"])
         /\ UNCHANGED <<gi, P>>

RNext == \/ Begin \/ Fail \/ StartCompletion \/ Group \/ Close \/ Reset
         \/ \E t \in Tokens \ {G.eof} : Scan(t)
         \/ \E t \in Tokens \ {G.eof, G.sof} : \E o \in 0..(Len(medial) - 2) : ScanLong(t, o)
         \/ \E h \in Tokens : SetHint(h)
RSpec == RInit /\ [][RNext]_vars

\* ---- what holds ----
Assumed == WellFormed(G, P)
Abs(S) == {<<it[1], abs[it[2] + 1]>> : it \in S}
Here == Len(input)
\* Right after a hint the set may lack what the announced token does not need;
\* when that token was read, all is as if there had been no hint.
Refines ==
    phase = "idle" =>
        /\ Len(rows) = Len(medial) + 1
        /\ \A it \in cur : it[2] + 1 \in 1..Len(abs)
        /\ IF due = -1 THEN Abs(cur) = emed[Here + 1] ELSE Abs(cur) \subseteq emed[Here + 1]
        /\ IF due = -1 THEN rows[Len(rows)] = epred[Here + 1] ELSE rows[Len(rows)] \subseteq epred[Here + 1]
        /\ ~WithHints =>
              \A k \in 1..Len(abs) : rows[k] = epred[abs[k] + 1] /\ Abs(medial[k]) = emed[abs[k] + 1]
\* Groups of one ordinary symbol and origin are taken once, with all of their
\* summands; those of generated symbols may come in parts, but no part twice.
GroupsOnce ==
    \A a, b \in groups : a # b /\ a[1] = b[1] /\ a[2] = b[2] => IsGen(G, a[1]) /\ a[3] \cap b[3] = {}
GroupsAll ==
    phase = "idle" => UNION {a[3] : a \in groups} = (IF groups = {} THEN {} ELSE before)
\* A set that was dropped is never asked for.
KeptEnough == \A it \in heap : it[2] + 1 \in 1..Len(medial) /\ it[3] + 1 \in 1..Len(medial)

Truth == LET g == AsCfg(G, G.start)
             f == TLCEval(SpansLong(g, input, edges))
         IN [f |-> f, e |-> TLCEval(ExpectOf(g, f))]
UserTop == Rhs0(G, G.dot_before_eof)
Finish == \E it \in cur : it[1] = G.dot_before_eof
\* (what module Earley says, against module CFG)
Agrees ==
    phase \in {"idle", "failed"} /\ Here > 0 /\ due = -1 /\ hint = -1 =>
        LET T == Truth
            facts(o) == {x \in AllSyms(G) : Here \in T.f[x][o]}
        IN /\ (phase = "idle" /\ Finish) = (Here \in T.f[UserTop][0])
           /\ phase = "idle" => \* exactly the partial matches, exactly what may come next
                /\ emed[Here + 1] = {<<d, o>> \in Dots(G) \X (0..(Here - 1)) :
                                        /\ ~IsUnary(G, d) /\ Rhs0(G, d) \in facts(o)
                                        /\ P.own[Lhs(G, d)] \in epred[o + 1]}
                /\ epred[Here + 1] = {x \in Ordinary(G) : <<x, Here>> \in T.e}
           \* failed: no token that was read can stand here
           /\ phase = "failed" => /\ \A t \in toks : <<t, Here - 1>> \notin T.e
                                 /\ long \cap T.e = {}
\* Completing under a hint and reading it next is as if there was no hint:
\* what reading h makes of the filtered sets is what it makes of all of them.
HintSafe ==
    (phase = "completing" /\ heap = {} /\ hint # -1 /\ hint # G.eof) =>
        LET full == Step(G, P, epred, emed, toks, {}, {})
            mine == Abs(cur)
            p1 == Append(epred, PredOf(G, P, full.med))
            p2 == Append(epred, PredOf(G, P, mine))
            next1 == Step(G, P, p1, Append(emed, full.med), {hint}, {}, {})
            next2 == Step(G, P, p2, Append(emed, mine), {hint}, {}, {})
        IN next1.med = next2.med
HintEnd ==
    (phase = "completing" /\ heap = {} /\ hint = G.eof) =>
        Finish = (<<G.dot_before_eof, 0>> \in Step(G, P, epred, emed, toks, {}, {}).med)

\* A location that fails because of a hint could not be followed by it.
HintFail ==
    (phase = "failed" /\ hint # -1) =>
        LET full == Step(G, P, epred, emed, toks, {}, {})
        IN /\ hint \notin PredOf(G, P, full.med)
           /\ hint = G.eof => ~Finished(G, full.med)

\* Tabulated definitions agree with the plain ones.
Corners == (input = <<>> /\ phase = "idle") => CornersOK(G)

\* ---- generated histories ----
RView == <<gi, medial, cur, rows, heap, phase, toks, long, edges, hint, input, due, runs>>
GenView == <<gi, medial, cur, rows, heap, phase, toks, long, hint, due, runs>>
Emit == (script' # script /\ script'[Len(script')].op \in {"end", "reset"}) =>
            PrintT(<<"GEN", ToJson([gi |-> gi, ops |-> script'])>>)
=============================================================================
