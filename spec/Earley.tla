------------------------------- MODULE Earley -------------------------------
(***************************************************************************)
(* The recognizer's contract at the level of sets: which items and which   *)
(* predictions belong to every location, given the token sets scanned so   *)
(* far and the completions a caller suppressed.  No order of processing,   *)
(* no bit matrix, no heap, no retained-set numbering: see Recognizer.tla   *)
(* for those.                                                              *)
(*                                                                         *)
(* An internal grammar G (the contract of the `Grammar` interface):        *)
(*   nsyms : symbols 0..nsyms-1 are ordinary, nsyms..nsyms+ngens-1         *)
(*           generated by binarization (they occur as a first symbol of a  *)
(*           right-hand side only)                                         *)
(*   rules : sequence of <<lhs, rhs0>> or <<lhs, rhs0, rhs1>>; the dot of  *)
(*           rule number d (from 0) stands after rhs0                      *)
(*   start, sof, eof, dot_before_eof                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Dots(G) == 0..(Len(G.rules) - 1)
Lhs(G, d) == G.rules[d + 1][1]
Rhs0(G, d) == G.rules[d + 1][2]
IsUnary(G, d) == Len(G.rules[d + 1]) = 2
Rhs1(G, d) == G.rules[d + 1][3]
IsGen(G, x) == x >= G.nsyms
AllSyms(G) == 0..(G.nsyms + G.ngens - 1)
Ordinary(G) == 0..(G.nsyms - 1)

\* The ordinary symbol on whose behalf a generated one is recognized.
RECURSIVE OwnerOf(_, _)
OwnerOf(G, x) == IF ~IsGen(G, x) THEN x
                 ELSE OwnerOf(G, Lhs(G, CHOOSE d \in Dots(G) : Rhs0(G, d) = x))

\* One step of prediction: ordinary symbols a symbol may begin with.
LeftCorner(G, x) == {Rhs0(G, d) : d \in {d \in Dots(G) : OwnerOf(G, Lhs(G, d)) = x /\ ~IsGen(G, Rhs0(G, d))}}
RECURSIVE ClosureOf(_, _)
ClosureOf(G, S) == LET new == S \cup UNION {LeftCorner(G, x) : x \in S}
                   IN IF new = S THEN S ELSE ClosureOf(G, new)

\* What is computed once per grammar: the same, tabulated (see CornersOK).
RECURSIVE CloseOver(_, _, _)
CloseOver(corner, S, todo) == LET more == UNION {corner[x] : x \in todo} \ S
                              IN IF more = {} THEN S ELSE CloseOver(corner, S \cup more, more)
Prep(G) ==
    LET by0 == TLCEval([x \in AllSyms(G) |-> TLCEval({d \in Dots(G) : Rhs0(G, d) = x})])
        up  == TLCEval([x \in AllSyms(G) |-> IF IsGen(G, x) THEN Lhs(G, CHOOSE d \in by0[x] : TRUE) ELSE x])
        own == LET climb[x \in AllSyms(G)] == IF IsGen(G, x) THEN climb[up[x]] ELSE x
               IN TLCEval([x \in AllSyms(G) |-> climb[x]])
        pairs == TLCEval({<<own[Lhs(G, d)], Rhs0(G, d)>> : d \in {d \in Dots(G) : ~IsGen(G, Rhs0(G, d))}})
        corner == TLCEval([x \in Ordinary(G) |-> TLCEval({q[2] : q \in {q \in pairs : q[1] = x}})])
    IN [ own     |-> own,
         closure |-> TLCEval([x \in Ordinary(G) |-> TLCEval(CloseOver(corner, {x}, {x}))]),
         by0     |-> by0,
         byl     |-> TLCEval([x \in AllSyms(G) |-> TLCEval({d \in Dots(G) : Lhs(G, d) = x})]) ]
\* Checked on small grammars by Recognizer (Corners).
CornersOK(G) == LET P == Prep(G)
                IN /\ \A x \in AllSyms(G) : P.own[x] = OwnerOf(G, x)
                   /\ \A x \in Ordinary(G) : P.closure[x] = ClosureOf(G, {x})

\* ---- the sets ----
\* pred[i+1], med[i+1] : predicted symbols and medial items <<dot, origin>> of location i.
Pred0(G, P) == P.closure[G.start]
PredOf(G, P, M) == UNION {P.closure[Rhs1(G, it[1])] : it \in M}

\* New items caused by facts <<symbol, origin>> about the location being built.
NewMedial(G, P, pred, F) ==
    UNION {{<<d, x[2]>> : d \in {d \in P.by0[x[1]] : ~IsUnary(G, d) /\ P.own[Lhs(G, d)] \in pred[x[2] + 1]}} : x \in F}
NewComplete(G, P, pred, med, F) ==
    UNION {{<<d, x[2]>> : d \in {d \in P.by0[x[1]] : IsUnary(G, d) /\ P.own[Lhs(G, d)] \in pred[x[2] + 1]}} : x \in F}
    \cup UNION {{it \in med[x[2] + 1] : Rhs1(G, it[1]) = x[1]} : x \in F}

\* `skip` : facts that the caller suppresses; `reject` : rules whose completions
\* the caller does not use.
RECURSIVE StepFix(_, _, _, _, _, _, _)
StepFix(G, P, pred, med, skip, reject, S) ==
    IF S.todo = {} THEN S
    ELSE LET comp == NewComplete(G, P, pred, med, S.todo)
             use  == {it \in comp : it[1] \notin reject}
             seen == {<<Lhs(G, it[1]), it[2]>> : it \in use} \ skip
         IN StepFix(G, P, pred, med, skip, reject,
                    [ med   |-> S.med \cup NewMedial(G, P, pred, S.todo),
                      comp  |-> S.comp \cup comp,
                      facts |-> S.facts \cup seen,
                      todo  |-> seen \ S.facts ])

\* The location after the last one of pred/med, when the tokens W are read there.
Step(G, P, pred, med, W, skip, reject) ==
    LET here  == Len(pred) - 1
        start == {<<t, here>> : t \in W \cap pred[here + 1]}
    IN StepFix(G, P, pred, med, skip, reject,
               [med |-> {}, comp |-> {}, facts |-> start, todo |-> start])

\* The same with tokens that began at earlier locations (facts <<token, location>>).
StepLong(G, P, pred, med, W, long, skip, reject) ==
    LET here  == Len(pred) - 1
        start == {x \in long : x[1] \in pred[x[2] + 1]} \cup {<<t, here>> : t \in W \cap pred[here + 1]}
    IN StepFix(G, P, pred, med, skip, reject,
               [med |-> {}, comp |-> {}, facts |-> start, todo |-> start])

Finished(G, M) == <<G.dot_before_eof, 0>> \in M

\* ---- the internal grammar as a grammar of module CFG ----
AsCfg(G, root) == [ syms  |-> G.nsyms + G.ngens,
                    rules |-> [k \in 1..Len(G.rules) |->
                                 [lhs |-> G.rules[k][1], rhs |-> Tail(G.rules[k]), id |-> k - 1]],
                    root  |-> root ]

\* ---- the contract between the grammar and the recognizer ----
RulesWithRhs0(G, x) == {d \in Dots(G) : Rhs0(G, d) = x}
Heads(G) == TLCEval({Lhs(G, d) : d \in Dots(G)})
FirstOf(G, P) == LET h == Heads(G) IN TLCEval([x \in Ordinary(G) |-> TLCEval(P.closure[x] \ h)])
\* What follows a symbol, in place of which it was completed.
RECURSIVE FollowFix(_, _, _, _)
FollowFix(inherit, base, f, todo) ==
    LET new == TLCEval([x \in DOMAIN f |-> IF inherit[x] \cap todo = {} THEN f[x]
                                           ELSE TLCEval(f[x] \cup UNION {f[y] : y \in inherit[x]})])
        changed == {x \in DOMAIN f : new[x] # f[x]}
    IN IF changed = {} THEN f ELSE FollowFix(inherit, base, new, changed)
FollowOf(G, P) ==
    LET first == FirstOf(G, P)
        base == TLCEval([x \in AllSyms(G) |-> TLCEval(UNION {first[Rhs1(G, d)] : d \in {d \in P.by0[x] : ~IsUnary(G, d)}})])
        pass == TLCEval({<<IF IsUnary(G, d) THEN Rhs0(G, d) ELSE Rhs1(G, d), Lhs(G, d)>> : d \in Dots(G)})
        inherit == TLCEval([x \in AllSyms(G) |-> TLCEval({q[2] : q \in {q \in pass : q[1] = x}})])
    IN FollowFix(inherit, base, base, AllSyms(G))

\* Symbol and rule numbering that the recognizer relies on: completions are
\* processed from the greatest (origin, rule) down, and the end of input is the
\* least postdot symbol.
RECURSIVE Climb(_, _, _)   \* ordinary symbols that a completion of x completes over the same span
Climb(G, P, x) == IF ~IsGen(G, x) THEN {x}
                  ELSE UNION {Climb(G, P, Lhs(G, d)) : d \in {d \in P.by0[x] : IsUnary(G, d)}}
Ordered(G, P) ==
    /\ \A d \in Dots(G) \ {0} : Lhs(G, d - 1) <= Lhs(G, d)
    /\ LET heads == Heads(G)
       IN \A d \in Dots(G) : IsUnary(G, d) /\ ~IsGen(G, Rhs0(G, d)) /\ Rhs0(G, d) \in heads
             => \A x \in Climb(G, P, Lhs(G, d)) : x < Rhs0(G, d)
    /\ \A d \in Dots(G) : ~IsUnary(G, d) => G.eof <= Rhs1(G, d)
GenShape(G, P) ==
    /\ \A d \in Dots(G) : ~IsUnary(G, d) => ~IsGen(G, Rhs1(G, d))
    /\ \A x \in AllSyms(G) \ Ordinary(G) :
        /\ Cardinality({d \in P.by0[x] : ~IsUnary(G, d)}) = 1
        /\ Cardinality({d \in P.by0[x] : IsUnary(G, d)}) <= 1
        /\ \A d, e \in P.by0[x] : P.own[Lhs(G, d)] = P.own[Lhs(G, e)]
\* (OwnerOf and Prep need this much.)
GenUsed(G) == \A x \in AllSyms(G) \ Ordinary(G) : \E d \in Dots(G) : Rhs0(G, d) = x
Wrapped(G) == LET d == G.dot_before_eof
              IN /\ d \in Dots(G) /\ ~IsUnary(G, d)
                 /\ Lhs(G, d) = G.start /\ Rhs1(G, d) = G.eof
                 /\ {e \in Dots(G) : Lhs(G, e) = G.start} = {d}
                 /\ \A e \in Dots(G) : e # d => G.eof \notin {Rhs0(G, e)} \cup (IF IsUnary(G, e) THEN {} ELSE {Rhs1(G, e)})
                 \* the start symbol of the user stands between the start and the end
                 \* of the input, unless it derives the empty string
                 /\ LET top == {e \in Dots(G) : Lhs(G, e) = Rhs0(G, d)}
                    IN /\ top # {}
                       /\ \A e \in top : Rhs0(G, e) = G.sof
                       /\ \A e, x \in top : IsUnary(G, e) = IsUnary(G, x) => e = x

\* Tables as sets; `completions[x]` etc. as the interface returns them.
Trans(G, P, d) == [symbol |-> P.own[Lhs(G, d)], dot |-> d, unary |-> IsUnary(G, d)]
PredRowsOK(G, P) == \A x \in Ordinary(G) : ToSet(G.pred[x + 1]) = P.closure[x]
CompletionsOK(G, P) ==
    \A x \in Ordinary(G) :
        LET c == G.completions[x + 1]
        IN /\ ToSet(c) = {Trans(G, P, d) : d \in P.by0[x]}
           /\ Len(c) = Cardinality(P.by0[x])
           \* all binary transitions come before all unary ones
           /\ \A i \in 1..(Len(c) - 1) : c[i].unary => c[i + 1].unary
TablesOK(G, P) ==
    /\ PredRowsOK(G, P)
    /\ CompletionsOK(G, P)
    /\ \A x \in AllSyms(G) \ Ordinary(G) : ToSet(G.gen[x - G.nsyms + 1]) = {Trans(G, P, d) : d \in P.by0[x]}
    \* hints may only rule out what cannot come
    /\ LET first == FirstOf(G, P) IN \A x \in Ordinary(G) : first[x] \subseteq ToSet(G.first[x + 1])
    /\ LET f == FollowOf(G, P) IN \A x \in Ordinary(G) : f[x] \cap Ordinary(G) \subseteq ToSet(G.follow[x + 1])
WellFormed(G, P) == GenShape(G, P) /\ Wrapped(G) /\ Ordered(G, P) /\ TablesOK(G, P)
=============================================================================
