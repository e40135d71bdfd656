---------------------------- MODULE GrammarTrace ----------------------------
(***************************************************************************)
(* What compiling a grammar must achieve.  A record holds a context-free   *)
(* grammar as the user wrote it (cfg), everything the compiled grammar     *)
(* answers (tables) and some words.  The compiled grammar must keep the    *)
(* contract of module Earley and derive the same trees (module CFG).       *)
(*                                                                         *)
(* Aspects:  lang    same language             tables  exact tables        *)
(*           look    lookahead sets            maps    symbol mapping      *)
(*           trees   rules keep their origin   events  dots keep theirs    *)
(*           order   numbering                 null    empty input         *)
(*           copies  serialization             parse   recognizer runs     *)
(***************************************************************************)
EXTENDS Earley, CFG, Json, IOUtils

CONSTANT Aspects
On(a) == a \in Aspects
Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sess, l, G, P        \* P: see Prep in module Earley
vars == <<sess, l, G, P>>

S == Log[sess]
T == S.tables
Ext == S.cfg                  \* [syms, rules, root], rules with id, -1 if hidden
Words == S.words

\* ---- the compiled rules, as the interface shows them ----
TotalOf(t) == t.nsyms + t.ngens
GenList(t, i) == FlattenSeq(t.gen[i + 1])
TransOf(t, x) == IF x < t.nsyms THEN t.completions[x + 1] ELSE GenList(t, x - t.nsyms)
FirstPairs(t) == UNION {{<<TransOf(t, x)[k].dot, x>> : k \in 1..Len(TransOf(t, x))} : x \in 0..(TotalOf(t) - 1)}
Readable(t) == \* every rule is listed under one first symbol
    /\ LET ps == TLCEval(FirstPairs(t))
       IN Cardinality(ps) = t.nrules /\ {q[1] : q \in ps} = 0..(t.nrules - 1)
    /\ t.nrules = Len(t.lhs) /\ t.nrules = Len(t.rhs1)
FromTables(t) ==
    LET ps == FirstPairs(t)
        rhs0 == TLCEval([d \in 0..(t.nrules - 1) |-> (CHOOSE q \in ps : q[1] = d)[2]])
    IN [ nsyms |-> t.nsyms, ngens |-> t.ngens, start |-> t.start, sof |-> t.sof, eof |-> t.eof,
         dot_before_eof |-> t.dot_before_eof,
         rules |-> TLCEval([k \in 1..t.nrules |-> IF t.rhs1[k] = -1 THEN <<t.lhs[k], rhs0[k - 1]>>
                                          ELSE <<t.lhs[k], rhs0[k - 1], t.rhs1[k]>>]),
         pred |-> t.pred, completions |-> t.completions,
         gen |-> TLCEval([i \in 1..t.ngens |-> GenList(t, i - 1)]) ]

\* ---- G02 ----
Exact2(t) ==
    /\ GenShape(G, P) /\ Wrapped(G)
    /\ PredRowsOK(G, P) /\ CompletionsOK(G, P)
    /\ \A i \in 1..G.ngens : \A u \in 1..2 :
          LET e == t.gen[i][u]
              want == {Trans(G, P, d) : d \in {d \in P.by0[G.nsyms + i - 1] : IsUnary(G, d) = (u = 2)}}
          IN Len(e) = Cardinality(want) /\ ToSet(e) = want
    /\ \A k \in 1..t.nrules : t.rhs1_all[k] = t.rhs1[k]
                           /\ t.rhs1_or_lhs[k] = IF t.rhs1[k] = -1 THEN t.lhs[k] ELSE t.rhs1[k]
    /\ Len(t.rhs1_all) = t.nrules
    /\ {t.info.sof, t.info.eof} = {t.sof, t.eof} /\ t.info.sof = t.sof
    /\ t.info.start = t.to_internal[Ext.root + 1]

\* ---- G03 ----
LookOK(t) ==
    LET follow == FollowOf(G, P)
        first == FirstOf(G, P)
        inner == TLCEval(Ordinary(G) \ Heads(G))
    IN /\ \A d \in Dots(G) :
            IF ~IsUnary(G, d) THEN ToSet(t.lookahead[d + 1]) \cap inner = first[Rhs1(G, d)]
            ELSE ~IsGen(G, Lhs(G, d)) => ToSet(t.lookahead[d + 1]) \cap inner = follow[Lhs(G, d)]
       /\ \A x \in Heads(G) : ~IsGen(G, x) => ToSet(t.lhs_lr[x + 1]) \cap inner = follow[x]

\* ---- G04 ----
Occurring(g) == LET p == Proper(g)
                IN {p.root} \cup {p.rules[k].lhs : k \in 1..Len(p.rules)}
                   \cup UNION {ToSet(p.rules[k].rhs) : k \in 1..Len(p.rules)}
MapsOK(t) ==
    LET int(x) == t.to_internal[x + 1]
        ext(y) == t.to_external[y + 1]
        all == 0..(TotalOf(t) - 1)
    IN /\ \A x \in Occurring(Ext) : int(x) \in all /\ ext(int(x)) = x
       /\ \A x \in Occurring(Ext) \cap Terminals(Ext) : int(x) < t.nsyms
       \* a symbol that no rule uses may have no number, but not that of another
       /\ \A x \in 0..(Ext.syms - 1) : int(x) # -1 => int(x) \in all /\ ext(int(x)) = x
       /\ \A y \in all : ext(y) < Ext.syms => int(ext(y)) = y
       /\ \A y, z \in all : ext(y) = ext(z) => y = z
       /\ \A y \in {t.start, t.sof, t.eof} : y < t.nsyms /\ ext(y) >= Ext.syms
       /\ Cardinality({t.start, t.sof, t.eof}) = 3
       /\ t.ext_start = Ext.root
       /\ \A d \in Dots(G) : G.rules[d + 1][1] \in all

\* ---- G05: trees ----
RECURSIVE NullText(_, _)
NullText(t, y) ==
    LET rs == {k \in 1..Len(t.nulling_rules) : t.nulling_rules[k][1] = y}
    IN IF rs = {} THEN " ~" \o ToString(t.to_external[y + 1])
       ELSE LET r == t.nulling_rules[CHOOSE k \in rs : TRUE]
            IN NullText(t, r[2]) \o NullText(t, r[3])
RECURSIVE Inner(_, _, _, _, _)
Inner(t, f, x, i, j) ==
    LET ds == P.byl[x]
    IN IF ds = {} THEN IF j = i + 1 /\ j \in f[x][i] THEN {" " \o Leaf(t.to_external[x + 1], i - 1)} ELSE {}
       ELSE IF j \notin f[x][i] THEN {}
       ELSE UNION {
         LET kids == IF IsUnary(G, d)
                     THEN LET c == Inner(t, f, Rhs0(G, d), i, j)
                              n == t.nulling[d + 1]
                          IN IF n = <<>> THEN c
                             ELSE IF n[2] = 1 THEN {a \o NullText(t, n[1]) : a \in c}
                             ELSE {NullText(t, n[1]) \o a : a \in c}
                     ELSE UNION {{a \o b : a \in Inner(t, f, Rhs0(G, d), i, k), b \in Inner(t, f, Rhs1(G, d), k, j)}
                                 : k \in {k \in f[Rhs0(G, d)][i] : k < j /\ j \in f[Rhs1(G, d)][k]}}
         IN IF t.origin[d + 1] = -1 THEN kids
            ELSE {" (" \o ToString(t.origin[d + 1]) \o a \o ")" : a \in kids}
         : d \in ds }

\* ---- G05: traces and events (grammars without nullable symbols) ----
Inserted(t, x) == t.to_external[x + 1] >= Ext.syms      \* made by the compilation
Binary0(x) == CHOOSE d \in P.by0[x] : ~IsUnary(G, d)
RECURSIVE Spell(_, _), TopDot(_, _)
Spell(t, x) == IF ~Inserted(t, x) \/ x \in {t.sof, t.eof, t.start} THEN <<t.to_external[x + 1]>>
               ELSE LET d == CHOOSE d \in P.byl[x] : TRUE
                    IN Spell(t, Rhs0(G, d)) \o (IF IsUnary(G, d) THEN <<>> ELSE <<t.to_external[Rhs1(G, d) + 1]>>)
TopDot(t, d) == IF Inserted(t, Lhs(G, d)) /\ Lhs(G, d) # t.start THEN TopDot(t, Binary0(Lhs(G, d))) ELSE d
RowEq(a, b) == a = b
EventAt(k, pos) == LET es == {i \in 1..Len(Ext.events) : Ext.events[i][1] = k - 1 /\ Ext.events[i][2] = pos}
                   IN IF es = {} THEN <<-1, -1>>
                      ELSE LET e == Ext.events[CHOOSE i \in es : \A j \in es : j <= i] IN <<e[3], e[4]>>
TraceAt(k, pos) == IF Ext.rules[k].id = -1 THEN <<-1, -1>> ELSE <<Ext.rules[k].id, pos>>
DotOK(t, d, top, pos, k) ==
    /\ t.trace.dot1[d + 1] = TraceAt(k, pos)
    /\ ~IsUnary(G, d) => t.trace.dot2[d + 1] = TraceAt(k, pos + 1)
    /\ t.events.dot1[d + 1] = EventAt(k, pos)
EventsOK(t) ==
    /\ \A top \in Dots(G) :
         IF Inserted(t, Lhs(G, top)) /\ Lhs(G, top) # t.start THEN TRUE
         ELSE
         LET below == {d \in Dots(G) : TopDot(t, d) = top}
         IN IF Lhs(G, top) = t.start
            THEN \A d \in below : t.events.dot1[d + 1] = <<-1, -1>> /\ t.trace.dot1[d + 1] = <<-1, -1>>
            ELSE LET rhs == TLCEval(Spell(t, Rhs0(G, top)) \o (IF IsUnary(G, top) THEN <<>> ELSE <<t.to_external[Rhs1(G, top) + 1]>>))
                     lhs == t.to_external[Lhs(G, top) + 1]
                     ks == TLCEval({k \in 1..Len(Ext.rules) : /\ Ext.rules[k].lhs = lhs
                                                              /\ Ext.rules[k].rhs = rhs /\ Ext.rules[k].id = t.origin[top + 1]})
                 IN /\ Cardinality(ks) = 1
                    /\ \A d \in below : DotOK(t, d, top, Len(Spell(t, Rhs0(G, d))), CHOOSE k \in ks : TRUE)
    /\ LET p == TLCEval(Proper(Ext))
       IN \A x \in Ordinary(G) :
            LET ks == RulesOf(p, t.to_external[x + 1])
                same == TLCEval({k \in 1..Len(Ext.rules) : \E q \in ks : Ext.rules[k] = p.rules[q]})
            IN IF Inserted(t, x) THEN TRUE
               ELSE IF ks = {} THEN t.events.predict[x + 1] = <<-1, -1>> /\ t.trace.predict[x + 1] = <<-1, -1>>
               ELSE /\ \E k \in same : t.events.predict[x + 1] = EventAt(k, 0)
                    /\ \E k \in same : t.trace.predict[x + 1] = TraceAt(k, 0)

\* ---- G08 ----
NullOK(t) ==
    LET can == Ext.root \in Nullable(Ext)
    IN /\ t.trivial = can
       /\ \A k \in 1..Len(S.ops) : S.ops[k].op = "finished" =>
             /\ S.ops[k].obs.finished = can
             \* the recording forest answers nulling(x) with 4000000 + x
             /\ S.ops[k].obs.node = IF can THEN 4000000 + t.to_internal[Ext.root + 1] ELSE 0
             /\ S.ops[k].log = <<>>

\* ---- a word ----
WrapWord(t, w) == <<{t.sof}>> \o [k \in 1..Len(w) |-> {t.to_internal[w[k] + 1]} \ {-1}] \o <<{t.eof}>>
WordOK(w) ==
    LET f == TLCEval(Spans(AsCfg(G, G.start), WrapWord(T, w)))
        n == Len(w)
        fe == TLCEval(Spans(Ext, Str(w)))
        top == Rhs0(G, G.dot_before_eof)
        start == T.to_internal[Ext.root + 1]
    IN /\ On("lang") => /\ (n + 2 \in f[G.start][0]) = (n \in fe[Ext.root][0])
                        /\ w = <<>> => T.trivial = (0 \in fe[Ext.root][0])
       /\ (On("trees") /\ n > 0) => Inner(T, f, start, 1, n + 1) = TreesOf(Ext, fe, Ext.root, 0, n)

TInit == sess \in 1..Len(Log) /\ l = 0 /\ G = <<>> /\ P = <<>>
Load == /\ l = 0 /\ l' = 1
        /\ "panic" \notin DOMAIN S
        /\ On("copies") => S.tables = S.copy.tables /\ S.ops = S.copy.ops
        /\ TRUE = Readable(T)
        /\ G' = FromTables(T)
        /\ TRUE = GenUsed(G')
        /\ P' = Prep(G')
        /\ UNCHANGED sess
Tables == /\ l = 1 /\ l' = 2
          /\ TRUE = (On("tables") => Exact2(T))
          /\ TRUE = (On("look") => LookOK(T))
          /\ TRUE = (On("maps") => MapsOK(T))
          /\ TRUE = (On("order") => Ordered(G, P))
          /\ TRUE = (On("events") => EventsOK(T))
          /\ TRUE = (On("null") => NullOK(T))
          /\ UNCHANGED <<sess, G, P>>
Word == /\ l >= 2 /\ l - 1 <= Len(Words) /\ l' = l + 1
        /\ TRUE = WordOK(Words[l - 1])
        /\ UNCHANGED <<sess, G, P>>
Done == l - 1 > Len(Words) /\ UNCHANGED vars
TNext == Load \/ Tables \/ Word \/ (l >= 2 /\ Done)
TSpec == TInit /\ [][TNext]_vars
TView == <<sess, l>>
=============================================================================
