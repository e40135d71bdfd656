-------------------------------- MODULE CFG --------------------------------
(***************************************************************************)
(* Context-free grammars, and what it means to derive: the ground truth    *)
(* for everything gearley computes.  Nothing here knows about Earley       *)
(* items, binarization, lookahead or forests.                              *)
(*                                                                         *)
(* A grammar is a record                                                   *)
(*    syms  : number of symbols 0..syms-1                                  *)
(*    rules : sequence of [lhs, rhs, id]; id = -1 for a rule that is not   *)
(*            visible in parse trees                                       *)
(*    root  : the start symbol.                                            *)
(* An input is a sequence of sets of terminals (a token lattice in which   *)
(* every token is one location long); an ordinary string is a sequence of  *)
(* singletons.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Str(w) == [k \in 1..Len(w) |-> {w[k]}]          \* a string as a lattice
SymsOf(g) == 0..(g.syms - 1)
Nonterminals(g) == {g.rules[k].lhs : k \in 1..Len(g.rules)}
Terminals(g) == SymsOf(g) \ Nonterminals(g)
RulesOf(g, x) == {k \in 1..Len(g.rules) : g.rules[k].lhs = x}

\* ---- derivation over a span ----
\* f[x][i] is the set of locations j such that x derives the input from i to j.
EndsOf(f, rhs, i) == FoldLeft(LAMBDA S, x : TLCEval(UNION {f[x][k] : k \in S}), {i}, rhs)

\* rhss[x] : the right-hand sides of x.  (TLCEval: TLC keeps inner functions
\* unevaluated otherwise, and evaluates them again at every use.)
RECURSIVE SpanFix(_, _, _)
SpanFix(rhss, n, f) ==
    LET new == TLCEval([x \in DOMAIN rhss |-> IF rhss[x] = {} THEN f[x] ELSE TLCEval([i \in 0..n |->
                  TLCEval(f[x][i] \cup UNION {EndsOf(f, r, i) : r \in rhss[x]})])])
    IN IF new = f THEN f ELSE SpanFix(rhss, n, new)

Spans(g, w) ==
    LET n == Len(w)
        terms == TLCEval(Terminals(g))
        rhss == TLCEval([x \in SymsOf(g) |-> TLCEval({g.rules[k].rhs : k \in RulesOf(g, x)})])
    IN SpanFix(rhss, n, TLCEval([x \in SymsOf(g) |-> TLCEval([i \in 0..n |->
                        IF i < n /\ x \in terms /\ x \in w[i + 1] THEN {i + 1} ELSE {}])]))
\* The same with further tokens <<t, i, j>>, which are longer than a location.
SpansLong(g, w, long) ==
    LET n == Len(w)
        terms == TLCEval(Terminals(g))
        rhss == TLCEval([x \in SymsOf(g) |-> TLCEval({g.rules[k].rhs : k \in RulesOf(g, x)})])
    IN SpanFix(rhss, n, TLCEval([x \in SymsOf(g) |-> TLCEval([i \in 0..n |->
                        IF x \notin terms THEN {}
                        ELSE {e[3] : e \in {e \in long : e[1] = x /\ e[2] = i}}
                             \cup IF i < n /\ x \in w[i + 1] THEN {i + 1} ELSE {}])]))

Derives(g, w) == Len(w) \in Spans(g, w)[g.root][0]

\* ---- left context ----
\* <<x, j>> : some sentential form of the root reads w[1..j] and goes on with x.
RECURSIVE ExpectFix(_, _, _, _), Steps(_, _, _)
\* <<x, j>> for every symbol x of the right-hand side and j where it may begin
Steps(f, rhs, S) == IF rhs = <<>> \/ S = {} THEN {}
                       ELSE {<<Head(rhs), j>> : j \in S} \cup Steps(f, Tail(rhs), TLCEval(UNION {f[Head(rhs)][k] : k \in S}))
ExpectFix(rhss, f, E, todo) ==
    LET new == TLCEval(UNION {UNION {Steps(f, r, {e[2]}) : r \in rhss[e[1]]} : e \in todo} \ E)
    IN IF new = {} THEN E ELSE ExpectFix(rhss, f, E \cup new, new)
ExpectOf(g, f) == LET rhss == TLCEval([x \in SymsOf(g) |-> TLCEval({g.rules[k].rhs : k \in RulesOf(g, x)})])
                  IN ExpectFix(rhss, f, {<<g.root, 0>>}, {<<g.root, 0>>})
Expected(g, w) == ExpectOf(g, Spans(g, w))

\* ---- productive, nullable, cyclic ----
RECURSIVE ProdFix(_, _)
ProdFix(g, P) == LET new == P \cup {g.rules[k].lhs : k \in {k \in 1..Len(g.rules) :
                                        \A p \in 1..Len(g.rules[k].rhs) : g.rules[k].rhs[p] \in P}}
                 IN IF new = P THEN P ELSE ProdFix(g, new)
Productive(g) == ProdFix(g, Terminals(g))
Nullable(g)   == ProdFix(g, {})

RECURSIVE ReachFix(_, _)
ReachFix(g, R) == LET new == R \cup UNION {{g.rules[k].rhs[p] : p \in 1..Len(g.rules[k].rhs)} :
                                             k \in UNION {RulesOf(g, x) : x \in R}}
                  IN IF new = R THEN R ELSE ReachFix(g, new)
Reachable(g) == ReachFix(g, {g.root})

\* The grammar without rules that cannot take part in any derivation.
Proper(g) == LET P == Productive(g)
                 ok(r) == \A p \in 1..Len(r.rhs) : r.rhs[p] \in P
                 g1 == [g EXCEPT !.rules = SelectSeq(g.rules, ok)]
                 R == Reachable(g1)
                 used(r) == r.lhs \in R
             IN [g1 EXCEPT !.rules = SelectSeq(g1.rules, used)]

\* x =>+ y in one step, up to nullable neighbours
UnitStep(g, N, x) == UNION {{g.rules[k].rhs[p] : p \in {p \in 1..Len(g.rules[k].rhs) :
                               \A q \in 1..Len(g.rules[k].rhs) \ {p} : g.rules[k].rhs[q] \in N}}
                            : k \in RulesOf(g, x)}
RECURSIVE UnitFix(_, _, _)
UnitFix(g, N, S) == LET new == TLCEval(S \cup UNION {UnitStep(g, N, x) : x \in S})
                    IN IF new = S THEN S ELSE UnitFix(g, N, new)
\* A =>+ A for some A: such grammars give infinitely many trees; excluded.
Cyclic(g) == LET N == Nullable(g)
             IN \E x \in Nonterminals(g) : x \in UnitFix(g, N, UnitStep(g, N, x))

\* A prefix can be continued to a sentence (all symbols productive).
Viable(g, w) == IF w = <<>> THEN g.root \in Productive(g)
                ELSE LET n == Len(w)
                         E == Expected(g, SubSeq(w, 1, n - 1))
                     IN \E t \in w[n] : t \in Terminals(g) /\ <<t, n - 1>> \in E

\* ---- parse trees ----
\* Trees as text.  A leaf is "symbol:location", a node "(id child child)"; a
\* rule with id -1 contributes its children only; what is derived from the
\* empty string is opaque, "~symbol".
Leaf(x, i) == ToString(x) \o ":" \o ToString(i)
LongLeaf(x, i, j) == IF j = i + 1 THEN Leaf(x, i) ELSE Leaf(x, i) \o "-" \o ToString(j)
RECURSIVE TreesOf(_, _, _, _, _), SeqTrees(_, _, _, _, _)
TreesOf(g, f, x, i, j) ==
    IF RulesOf(g, x) = {} THEN IF j \in f[x][i] THEN {" " \o LongLeaf(x, i, j)} ELSE {}
    ELSE IF i = j THEN IF j \in f[x][i] THEN {" ~" \o ToString(x)} ELSE {}
    ELSE UNION { LET ts == SeqTrees(g, f, g.rules[k].rhs, i, j)
                 IN IF g.rules[k].id < 0 THEN ts
                    ELSE {" (" \o ToString(g.rules[k].id) \o t \o ")" : t \in ts}
                 : k \in RulesOf(g, x) }
SeqTrees(g, f, rhs, i, j) ==
    IF rhs = <<>> THEN IF i = j THEN {""} ELSE {}
    ELSE UNION { LET rest == SeqTrees(g, f, Tail(rhs), k, j)
                 IN IF rest = {} THEN {}
                    ELSE {a \o b : a \in TreesOf(g, f, Head(rhs), i, k), b \in rest}
                 : k \in {k \in f[Head(rhs)][i] : k <= j} }
Trees(g, w) == TreesOf(g, Spans(g, w), g.root, 0, Len(w))
=============================================================================
