------------------------------ MODULE RecForest ------------------------------
(***************************************************************************)
(* Module Recognizer together with what its items carry: the alternatives  *)
(* of the forest node of every item, as texts of trees (see CFG).  One     *)
(* action of Recognizer and the calls it makes to the forest are one step. *)
(*                                                                         *)
(*   tcur  : item <<dot, origin>> of the set in progress -> alternatives   *)
(*           of its first symbol                                           *)
(*   tmed  : the same for every kept set                                   *)
(*   theap : completed item <<dot, origin, mid>> -> alternatives of its    *)
(*           whole right-hand side                                         *)
(* Alternatives are sequences, so that "each tree once" can be seen.       *)
(*                                                                         *)
(* TLC checks, for every grammar of a file and every input within bounds,  *)
(* that an item carries exactly the trees of what it has matched, each one *)
(* once (ItemTrees), and so does a finished parse (AllTrees): groups taken *)
(* greatest first are all that is needed to build a complete forest in one *)
(* pass, without going back to a node that was handed out.                 *)
(***************************************************************************)
EXTENDS Recognizer

VARIABLES tcur, tmed, theap
tvars == <<tcur, tmed, theap>>

Nothing == [k \in {} |-> <<>>]
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>
Merge(f, g) == TLCEval([k \in DOMAIN f \cup DOMAIN g |-> At(f, k) \o At(g, k)])
Pairs(as, bs) == FlattenSeq([i \in 1..Len(as) |-> [k \in 1..Len(bs) |-> as[i] \o bs[k]]])
Branches(d, ts) == [i \in 1..Len(ts) |-> " (" \o ToString(d) \o ts[i] \o ")"]

\* complete(set, sym, node): what the new items carry
CurGets(o, x, ts) == TLCEval([it \in ToCur(o, x) |-> ts])
HeapGets(o, x, ts) ==
    TLCEval([it \in ToHeap(o, x) |->
        IF IsUnary(G, it[1]) THEN ts ELSE Pairs(At(tmed[o + 1], <<it[1], it[2]>>), ts)])
Completed(o, x, ts) == /\ tcur' = Merge(tcur, CurGets(o, x, ts))
                       /\ theap' = Merge(theap, HeapGets(o, x, ts))

FInit == RInit /\ tcur = Nothing /\ tmed = <<>> /\ theap = Nothing
FBegin == Begin /\ tmed' = Append(tmed, tcur) /\ tcur' = Nothing /\ UNCHANGED theap
FHint(h) == SetHint(h) /\ UNCHANGED tvars
FScan(t) == Scan(t) /\ Completed(Len(medial) - 1, t, <<" " \o Leaf(t, Here)>>) /\ UNCHANGED tmed
FLong(t, o) == /\ ScanLong(t, o)
               /\ Completed(o, t, <<" " \o LongLeaf(t, abs[o + 1], Here + 1)>>)
               /\ UNCHANGED tmed
FFail == Fail /\ UNCHANGED tvars
FStart == StartCompletion /\ UNCHANGED tvars
FGroup == /\ Group
          /\ LET o == Top[2]
                 x == Lhs(G, Top[1])
                 t == Taken(heap, o, x)
                 order == SetToSeq(t)
                 sum == FlattenSeq([i \in 1..Len(order) |-> Branches(order[i][1], At(theap, order[i]))])
                 left == [k \in DOMAIN theap \ t |-> theap[k]]
             IN /\ tcur' = Merge(tcur, CurGets(o, x, sum))
                /\ theap' = Merge(left, HeapGets(o, x, sum))
          /\ UNCHANGED tmed
FClose == Close /\ tmed' = SubSeq(tmed, 1, Len(medial')) /\ UNCHANGED <<tcur, theap>>
FReset == Reset /\ tcur' = Nothing /\ tmed' = <<>> /\ theap' = Nothing

FNext == \/ FBegin \/ FFail \/ FStart \/ FGroup \/ FClose \/ FReset
         \/ \E t \in Tokens \ {G.eof} : FScan(t)
         \/ \E t \in Tokens \ {G.eof, G.sof} : \E o \in 0..(Len(medial) - 2) : FLong(t, o)
         \/ \E h \in Tokens : FHint(h)
FSpec == FInit /\ [][FNext]_<<vars, tvars>>

\* ---- what holds ----
Carried == /\ DOMAIN tcur = cur /\ DOMAIN theap = heap
           /\ [k \in 1..Len(tmed) |-> DOMAIN tmed[k]] = medial
Exactly(ts, S) == Len(ts) = Cardinality(S) /\ ToSet(ts) = S
TreesFrom(f, x, i, j) == TreesOf(AsCfg(G, x), f, x, i, j)
ItemTrees ==
    phase = "idle" /\ Here > 0 /\ due = -1 =>
        LET T == Truth
        IN \A it \in cur : Exactly(tcur[it], TreesFrom(T.f, Rhs0(G, it[1]), abs[it[2] + 1], Here))
\* (also when the end of the input was announced)
AllTrees ==
    phase = "idle" /\ Finish /\ due \in {-1, G.eof} =>
        Exactly(tcur[<<G.dot_before_eof, 0>>], TreesFrom(Truth.f, UserTop, 0, Here))
=============================================================================
