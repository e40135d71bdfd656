------------------------------ MODULE RecTrace ------------------------------
(***************************************************************************)
(* Recorded recognizer histories must be behaviours of the contract in     *)
(* module Earley (and, for acceptance and trees, of module CFG).           *)
(*                                                                         *)
(* Locations here are absolute (how many token sets were read); the code   *)
(* numbers only the sets it retains.  `locmap` translates: it is learnt    *)
(* from the location number the code reports at every begin_earleme, so    *)
(* that any consistent retention policy is accepted, unless the aspect     *)
(* "retain" asks for the documented one.                                   *)
(*                                                                         *)
(* `Aspects` selects what is compared, so that each property is decided by *)
(* its own observations:                                                   *)
(*   accept  is_finished                     fail    exhaustion, results   *)
(*   items   medial items                    pred    predicted symbols     *)
(*   forest  calls to the forest, trees      retain  location numbers      *)
(*   events  trace, events, distances        groups  completion groups     *)
(***************************************************************************)
EXTENDS Earley, CFG, Json, IOUtils

CONSTANT Aspects

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sess, l,      \* which session, next event
          P,            \* tables derived from its grammar
          W,            \* token sets read so far
          pred, med,    \* per location: what the contract says (no hints)
          hints,        \* per location: the hint it was completed under, -1 none
          honest,       \* every hint so far came true
          whole,        \* no completion was suppressed so far
          run, truth,   \* which input of the session; what module CFG says about each
          phase,        \* "idle", "open" (begun), "grouped"
          cur,          \* tokens scanned at the open location
          long,         \* <<token, location>>: longer tokens that end here
          hint,         \* current hint, -1 none
          nxt,          \* result of Step after "groups"
          locmap,       \* retained set number + 1 -> absolute location
          nodes,        \* forest: every node so far
          bad           \* forest protocol broken (a reason), or ""
vars == <<sess, l, P, W, pred, med, hints, honest, whole, run, truth, phase, cur, long, hint, nxt, locmap, nodes, bad>>

On(a) == a \in Aspects /\ (IF "without" \in DOMAIN Log[sess] THEN a \notin ToSet(Log[sess].without) ELSE TRUE)
\* In sessions of large scale a node does not list its trees, but says which
\* nodes it was made of: what is summed has to differ.
Light == "light" \in DOMAIN Log[sess]
G == Log[sess].g
Events == Log[sess].ops
Look == ~("policy" \in DOMAIN Log[sess] /\ Log[sess].policy = "nolook")
EffHint == IF Look THEN hint ELSE -1
Here == Len(W)

BagEq(s, t) == /\ Len(s) = Len(t)
               /\ ToSet(s) = ToSet(t)
               /\ \/ Len(s) = Cardinality(ToSet(s))
                  \/ \A x \in ToSet(s) : Cardinality({i \in 1..Len(s) : s[i] = x})
                                         = Cardinality({i \in 1..Len(t) : t[i] = x})

\* The inputs of the session, one for every run between resets.
Inputs == LET acc == FoldLeft(LAMBDA a, e :
                        CASE e.op = "scan" -> [a EXCEPT !.tok = @ \cup {e.sym}]
                          [] e.op = "begin" -> [a EXCEPT !.map = SubSeq(@, 1, e.obs.earleme) \o <<Len(a.w)>>]
                          [] e.op = "span" /\ e.obs.set >= 0 ->
                               [a EXCEPT !.long = @ \cup {<<e.sym, a.map[e.obs.set + 1], Len(a.w) + 1>>}]
                          [] e.op \in {"end", "advance"} -> [a EXCEPT !.w = Append(@, a.tok), !.tok = {}]
                          [] e.op = "reset" -> [done |-> Append(a.done, <<a.w, a.long>>), w |-> <<>>, long |-> {}, tok |-> {}, map |-> <<>>]
                          [] OTHER -> a,
                      [done |-> <<>>, w |-> <<>>, long |-> {}, tok |-> {}, map |-> <<>>], Events)
          IN Append(acc.done, <<acc.w, acc.long>>)
Truth == LET g == AsCfg(G, G.start)
         IN [i \in 1..Len(Inputs) |->
               LET f == TLCEval(IF Inputs[i][2] = {} THEN Spans(g, Inputs[i][1])
                                ELSE SpansLong(g, Inputs[i][1], Inputs[i][2]))
               IN [ f |-> f, e |-> IF On("cfg") THEN ExpectOf(g, f) ELSE {} ]]

TInit == /\ sess \in 1..Len(Log) /\ l = 0
         /\ P = <<>> /\ run = 1 /\ truth = <<>> /\ honest = TRUE /\ whole = TRUE /\ whole = TRUE
         /\ W = <<>> /\ pred = <<>> /\ med = <<{}>> /\ hints = <<-1>>
         /\ phase = "idle" /\ cur = {} /\ long = {} /\ hint = -1 /\ nxt = {} /\ locmap = <<>>
         /\ nodes = <<>> /\ bad = ""
Start == /\ l = 0 /\ l' = 1
         /\ P' = Prep(G) /\ pred' = <<Pred0(G, P')>>
         /\ truth' = IF On("cfg") \/ (On("forest") /\ ~Light) THEN Truth ELSE <<>>
         /\ UNCHANGED <<sess, W, med, hints, honest, whole, run, phase, cur, long, hint, nxt, locmap, nodes, bad>>
Top == Rhs0(G, G.dot_before_eof)
DerivesW(w) == Len(w) \in truth[run].f[Top][0]
ViableW(w) == \E x \in long \cup {<<t, Len(w) - 1>> : t \in cur} : x \in truth[run].e
CanRead == cur \cap pred[Here + 1] # {} \/ \E x \in long : x[1] \in pred[x[2] + 1]

\* The contract holds only for grammars that keep their side of it.
Assume == WellFormed(G, P)

\* ---- the forest ----
Concat(as, bs) == FlattenSeq([i \in 1..Len(as) |-> [k \in 1..Len(bs) |-> as[i] \o bs[k]]])
Wrap(d, ts) == [i \in 1..Len(ts) |-> " (" \o ToString(d) \o ts[i] \o ")"]
Node(syms, from, to, ts) == [syms |-> syms, from |-> from, to |-> to, ts |-> ts]

Say(n, ts) == IF Light THEN << "n" \o ToString(n) >> ELSE ts

\* acc: [nodes, open, pend, sums, bad]
Call(acc, e) ==
    LET fail(why) == [acc EXCEPT !.bad = IF @ = "" THEN why ELSE @]
        n == Len(acc.nodes)
        known(x) == x \in 1..n
        add(nd) == IF e.node # n + 1 THEN fail("numbering") ELSE [acc EXCEPT !.nodes = Append(@, nd)]
    IN CASE acc.bad # "" -> acc
         [] e.f = "leaf" -> add(Node(<<e.sym>>, Here, Here + 1, Say(e.node, <<" " \o Leaf(e.sym, Here)>>)))
         [] e.f = "token" -> IF e.set + 1 \notin 1..Len(locmap) THEN fail("token from nowhere")
                             ELSE LET o == locmap[e.set + 1]
                                  IN add(Node(<<e.sym>>, o, Here + 1, Say(e.node, <<" " \o LongLeaf(e.sym, o, Here + 1)>>)))
         [] e.f = "product" ->
              IF ~(known(e.left) /\ known(e.right)) THEN fail("product of unknown nodes")
              ELSE LET a == acc.nodes[e.left]
                       b == acc.nodes[e.right]
                   IN IF a.to # b.from \/ Len(a.syms) # 1 \/ Len(b.syms) # 1 \/ b.to # Here + 1
                      THEN fail("product of nodes that do not meet")
                      ELSE add(Node(a.syms \o b.syms, a.from, b.to, Concat(a.ts, b.ts)))
         [] e.f = "begin" -> IF acc.pend # <<>> THEN fail("begin_sum inside of a sum")
                             ELSE [acc EXCEPT !.open = TRUE]
         [] e.f = "summand" ->
              IF ~acc.open THEN fail("summand outside of a sum")
              ELSE IF ~known(e.node) \/ e.dot \notin Dots(G) \/ e.origin + 1 \notin 1..Len(locmap) THEN fail("unknown summand")
              ELSE LET a == acc.nodes[e.node]
                   IN IF a.syms # Tail(G.rules[e.dot + 1]) \/ a.from # locmap[e.origin + 1] \/ a.to # Here + 1
                      THEN fail("summand does not fit its rule")
                      ELSE [acc EXCEPT !.pend = Append(@, <<e.dot, e.origin, Wrap(e.dot, a.ts)>>)]
         [] e.f = "sum" ->
              IF acc.pend = <<>> THEN fail("sum of nothing")
              ELSE IF \E i \in 1..Len(acc.pend) : Lhs(G, acc.pend[i][1]) # e.lhs \/ acc.pend[i][2] # e.origin
              THEN fail("sum of other summands")
              ELSE IF ~IsGen(G, e.lhs) /\ <<e.lhs, e.origin>> \in acc.sums THEN fail("one symbol and span summed twice")
              ELSE IF Light /\ Cardinality({acc.pend[i][3] : i \in 1..Len(acc.pend)}) # Len(acc.pend) THEN fail("summed twice")
              ELSE [add(Node(<<e.lhs>>, locmap[e.origin + 1], Here + 1,
                             Say(e.node, FlattenSeq([i \in 1..Len(acc.pend) |-> acc.pend[i][3]]))))
                    EXCEPT !.pend = <<>>, !.open = FALSE, !.sums = @ \cup {<<e.lhs, e.origin>>}]
         [] OTHER -> fail("unexpected call")
Calls(log) == FoldLeft(Call, [nodes |-> nodes, open |-> FALSE, pend |-> <<>>, sums |-> {}, bad |-> bad], log)

AbsSums(acc) == {<<s[1], locmap[s[2] + 1]>> : s \in acc.sums}
NonLexical(S) == {<<Lhs(G, it[1]), it[2]>> : it \in S.comp}

ForestStep(log, S, exact) ==
    IF ~On("forest") THEN UNCHANGED <<nodes, bad>>
    ELSE LET acc == Calls(log)
         IN /\ nodes' = acc.nodes
            /\ bad' = acc.bad
            /\ acc.bad = ""
            /\ acc.pend = <<>>
            /\ TRUE = (exact => AbsSums(acc) = NonLexical(S))

\* Every tree of the input, each once, under the node that marks success.
TreesExact(node, w, all) ==
    LET x == nodes'[node]
        expect == IF Light THEN ToSet(x.ts) ELSE TreesOf(AsCfg(G, Top), truth[run].f, Top, 0, Len(w))
    IN /\ node \in 1..Len(nodes')
       /\ x.syms = <<Top>> /\ x.from = 0 /\ x.to = Len(w)
       /\ Len(x.ts) = Cardinality(ToSet(x.ts))
       /\ IF all THEN ToSet(x.ts) = expect ELSE ToSet(x.ts) \subseteq expect

\* ---- events ----
Ev == Events[l]
O == Ev.obs
Abs(it) == <<it[1], locmap'[it[2] + 1]>>

\* Hints may only remove what a true hint says is not needed.
Exact(j) == honest /\ hints[j + 1] = -1

ItemsOK(list, j) ==
    LET abs == {Abs(list[i]) : i \in 1..Len(list)}
        plain == SelectSeq(list, LAMBDA it : ~IsGen(G, Rhs0(G, it[1])))
    IN /\ \A i \in 1..Len(list) : list[i][2] + 1 \in 1..Len(locmap')
       /\ IF Exact(j) THEN abs = med[j + 1] ELSE abs \subseteq med[j + 1]
       \* several tokens of one kind at one location may repeat an item
       /\ Len(plain) = Cardinality(ToSet(plain))

PredOK(list, j) ==
    /\ IF Exact(j) THEN ToSet(list) = pred[j + 1] ELSE ToSet(list) \subseteq pred[j + 1]
    /\ Len(list) = Cardinality(ToSet(list))

\* Sets between the last one an item refers to and the newest are dropped.
Retained(j) ==
    IF j = 0 THEN 0
    ELSE LET origins == {it[2] : it \in med[j + 1]}
             last == IF origins = {} THEN j - 1 ELSE CHOOSE o \in origins : \A p \in origins : p <= o
         IN IF last = 0 THEN Len(locmap)
            ELSE CHOOSE n \in 0..Len(locmap) : n = Cardinality({i \in 1..Len(locmap) : locmap[i] <= last})

NodesOK(list, ns) ==
    \A i \in 1..Len(list) :
        /\ ns[i] \in 1..Len(nodes)
        /\ LET a == nodes[ns[i]]
           IN a.syms = <<Rhs0(G, list[i][1])>> /\ a.from = Abs(list[i])[2] /\ a.to = Here

Row(table, i) == table[i + 1]
EventsOK ==
    /\ BagEq(O.trace, [i \in 1..Len(O.pred) |-> Row(G.trace.predict, O.pred[i]) \o <<O.earleme>>]
                      \o [i \in 1..Len(O.med) |-> Row(G.trace.dot1, O.med[i][1]) \o <<O.med[i][2]>>])
    /\ LET ev == [i \in 1..Len(O.pred) |-> Row(G.events.predict, O.pred[i])]
                 \o [i \in 1..Len(O.med) |-> Row(G.events.dot1, O.med[i][1])]
       IN /\ BagEq(O.events, ev)
          /\ BagEq(O.dists, [i \in 1..Len(ev) |-> ev[i][2]])
    \* what stands after the dots
    /\ BagEq(O.expected, [i \in 1..Len(O.med) |-> Rhs1(G, O.med[i][1])])

Begin == /\ Ev.op = "begin" /\ phase = "idle"
         /\ phase' = "open" /\ cur' = {} /\ long' = {}
         /\ O.earleme \in 0..Len(locmap)
         /\ locmap' = SubSeq(locmap, 1, O.earleme) \o <<Here>>
         /\ TRUE = (On("items") => ItemsOK(O.med, Here))
         /\ TRUE = (On("pred") => PredOK(O.pred, Here))
         /\ TRUE = ((On("retain") /\ Exact(Here)) => O.earleme = Retained(Here))
         /\ TRUE = (On("forest") => NodesOK(O.med, O.nodes))
         /\ TRUE = (On("events") => EventsOK)
         /\ UNCHANGED <<sess, P, W, pred, med, hints, honest, whole, run, truth, hint, nxt, nodes, bad>>

Hint == /\ Ev.op \in {"hint", "unhint"}
        /\ hint' = IF Ev.op = "hint" THEN Ev.sym ELSE -1
        /\ On("hint") => O.hint = hint'
        /\ UNCHANGED <<sess, P, W, pred, med, hints, honest, whole, run, truth, phase, cur, long, nxt, locmap, nodes, bad>>

\* The hint given at the last location has come true.
StillHonest(read) == honest /\ (hints[Here + 1] = -1 \/ read = {hints[Here + 1]})

Scan == /\ Ev.op = "scan" /\ phase = "open"
        /\ cur' = cur \cup {Ev.sym}
        \* something was scanned that can go on
        /\ TRUE = (On("fail") => IF EffHint = -1 /\ StillHonest(cur') THEN O.exhausted = (cur' \cap pred[Here + 1] = {} /\ \A x \in long : x[1] \notin pred[x[2] + 1])
                                ELSE (cur' \cap pred[Here + 1] = {} /\ long = {}) => O.exhausted)
        /\ IF On("forest")
           THEN LET acc == Calls(Ev.log)
                IN /\ nodes' = acc.nodes /\ bad' = acc.bad /\ acc.bad = ""
                   /\ Len(Ev.log) >= 1 /\ Ev.log[1].f = "leaf"
                   /\ Ev.log[1].sym = Ev.sym /\ Ev.log[1].value = Ev.value
                   /\ Ev.log[1].pos = Len(locmap)
                   /\ \A i \in 2..Len(Ev.log) : Ev.log[i].f = "product"
           ELSE UNCHANGED <<nodes, bad>>
        /\ UNCHANGED <<sess, P, W, pred, med, hints, honest, whole, run, truth, phase, long, hint, nxt, locmap>>

\* A token that began at an earlier location (which is still kept).
Span == /\ Ev.op = "span" /\ phase = "open"
        /\ O.set \in -1..(Len(locmap) - 1)
        /\ long' = IF O.set = -1 THEN long ELSE long \cup {<<Ev.sym, locmap[O.set + 1]>>}
        /\ TRUE = (On("fail") => (\/ O.exhausted = (cur \cap pred[Here + 1] = {} /\ \A x \in long' : x[1] \notin pred[x[2] + 1])
                                  \/ hint # -1 \/ ~honest))
        /\ IF On("forest") /\ O.set >= 0
           THEN LET acc == Calls(Ev.log)
                IN /\ nodes' = acc.nodes /\ bad' = acc.bad /\ acc.bad = ""
                   /\ Len(Ev.log) >= 1 /\ Ev.log[1].f = "token"
                   /\ \A i \in 2..Len(Ev.log) : Ev.log[i].f = "product"
           ELSE UNCHANGED <<nodes, bad>>
        /\ UNCHANGED <<sess, P, W, pred, med, hints, honest, whole, run, truth, phase, cur, hint, nxt, locmap>>

Effect(skip, reject) == IF long = {} THEN Step(G, P, pred, med, cur, skip, reject)
                        ELSE StepLong(G, P, pred, med, cur, long, skip, reject)
\* The hinted token can be read next.
CanGoOn(S, h) == h = -1 \/ h \in PredOf(G, P, S.med)

Result(S, h, w) ==
    LET can == CanRead
        full == StillHonest(cur)
    IN
    /\ On("fail") => /\ O.ret => can
                     /\ full /\ can /\ CanGoOn(S, h) => O.ret
    /\ On("accept") => /\ O.finished => Finished(G, S.med)
                       /\ full /\ Finished(G, S.med) /\ h \in {-1, G.eof} => O.finished
                       /\ (O.node # 0) = O.finished
    /\ On("cfg") => /\ O.finished => DerivesW(w)
                    /\ O.ret => ViableW(w)
                    /\ full /\ h = -1 => (O.ret <=> ViableW(w))
                    /\ full /\ h \in {-1, G.eof} => O.finished = DerivesW(w)

Close(S, w, h) == /\ W' = w
                  /\ pred' = Append(pred, PredOf(G, P, S.med))
                  /\ med' = Append(med, S.med)
                  /\ hints' = Append(hints, h)
                  /\ honest' = StillHonest(cur)

End == /\ Ev.op = "end" /\ phase = "open"
       /\ LET S == Effect({}, {})
              h == EffHint
              w == Append(W, cur)
          IN /\ TRUE = (Result(S, h, w))
             /\ ForestStep(Ev.log, S, h = -1 /\ StillHonest(cur))
             /\ TRUE = ((On("forest") /\ O.finished) => TreesExact(O.node, w, whole /\ StillHonest(cur) /\ h \in {-1, G.eof}))
             /\ On("hint") => (O.ret => O.hint = -1)
             /\ Close(S, w, h)
       /\ phase' = "idle" /\ hint' = -1 /\ cur' = {} /\ long' = {}
       /\ UNCHANGED <<sess, P, whole, run, truth, nxt, locmap>>

\* The completion loop in the caller's hands.
AbsPairs(ps) == {<<ps[i][1], locmap[ps[i][2] + 1]>> : i \in {i \in 1..Len(ps) : ps[i][2] + 1 \in 1..Len(locmap)}}
GroupsOK(S, gs) ==
    /\ {<<gs[i].sym, locmap[gs[i].origin + 1]>> : i \in 1..Len(gs)} = NonLexical(S)
    /\ \A i, k \in 1..Len(gs) :
         i # k /\ gs[i].sym = gs[k].sym /\ gs[i].origin = gs[k].origin => IsGen(G, gs[i].sym)
    /\ Ev.how = "each" =>
         UNION {{<<gs[i].dots[k][1], locmap[gs[i].dots[k][2] + 1]>> : k \in 1..Len(gs[i].dots)} : i \in 1..Len(gs)}
         = {it \in S.comp : <<Lhs(G, it[1]), it[2]>> \notin AbsPairs(Ev.skip)}
Groups == /\ Ev.op = "groups" /\ phase = "open"
          /\ LET S == Effect(AbsPairs(Ev.skip), ToSet(Ev.reject))
                 gs == O.groups
             IN /\ nxt' = [S |-> S, clean |-> Ev.skip = <<>> /\ Ev.reject = <<>>]
                /\ ForestStep(Ev.log, S, FALSE)
                /\ TRUE = ((On("groups") /\ Ev.how # "all") => GroupsOK(S, gs))
                /\ TRUE = ((On("hint") /\ Ev.how = "all") => O.hint = -1)
          /\ phase' = "grouped" /\ hint' = -1
          /\ UNCHANGED <<sess, P, W, pred, med, hints, honest, whole, run, truth, cur, long, locmap>>

Advance == /\ Ev.op = "advance" /\ phase = "grouped"
           /\ LET S == nxt.S
                  w == Append(W, cur)
              IN /\ whole' = (whole /\ nxt.clean)
                 /\ On("accept") => O.finished = Finished(G, S.med)
                 /\ On("fail") => O.exhausted = (S.med = {})
                 /\ nodes' = nodes
                 /\ TRUE = ((On("forest") /\ O.finished) => TreesExact(O.node, w, whole'))
                 /\ Close(S, w, -1)
           /\ phase' = "idle" /\ cur' = {} /\ long' = {} /\ nxt' = {}
           /\ UNCHANGED <<sess, P, run, truth, hint, locmap, bad>>

Reset == /\ Ev.op = "reset"
         /\ run' = run + 1 /\ honest' = TRUE /\ whole' = TRUE
         /\ W' = <<>> /\ pred' = <<Pred0(G, P)>> /\ med' = <<{}>> /\ hints' = <<-1>>
         /\ phase' = "idle" /\ cur' = {} /\ long' = {} /\ hint' = -1 /\ nxt' = {} /\ locmap' = <<>>
         /\ On("fail") => O.exhausted
         /\ UNCHANGED <<sess, P, truth, nodes, bad>>

\* Asking between locations.
FinishedOp ==
    /\ Ev.op = "finished" /\ phase = "idle"
    /\ TRUE = (On("accept") =>
                IF W = <<>> THEN /\ O.finished = G.trivial
                                 /\ O.node = IF ~G.trivial THEN 0 ELSE IF Log[sess].forest = "null" THEN -1 ELSE 4000000 + G.start
                ELSE LET here == med[Here + 1]
                     IN /\ (O.finished => Finished(G, here))
                        /\ ((Exact(Here) /\ Finished(G, here)) => O.finished))
    /\ TRUE = ((On("fail") /\ W = <<>>) => O.exhausted)
    /\ TRUE = ((On("fail") /\ Exact(Here)) => (O.exhausted = (med[Here + 1] = {})))
    /\ UNCHANGED <<sess, P, W, pred, med, hints, honest, whole, run, truth, phase, cur, long, hint, nxt, locmap, nodes, bad>>

TNext == \/ Start
         \/ /\ l \in 1..Len(Events)
            /\ \/ Begin \/ Hint \/ Scan \/ Span \/ End \/ FinishedOp \/ Groups \/ Advance \/ Reset
            /\ l' = l + 1
         \/ l > Len(Events) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
TView == <<sess, l>>
Contract == l = 1 => Assume
=============================================================================
