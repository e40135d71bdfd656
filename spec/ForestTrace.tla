---------------------------- MODULE ForestTrace ----------------------------
(***************************************************************************)
(* Binding of module Forest to the two bocages.                            *)
(*  "trace": histories recorded from a real forest must be behaviours.     *)
(*  "gen":   TLC builds every forest of up to MaxNodes nodes over a small  *)
(*           vocabulary and prints it with the meaning of every node; the  *)
(*           real forests are then built alike and evaluated.              *)
(***************************************************************************)
EXTENDS Forest, Json, IOUtils

CONSTANT MaxNodes

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, l
vars == <<info, nodes, sess, l>>

TInit == sess \in 1..Len(Log) /\ l = 1 /\ info = Log[sess].info /\ nodes = <<>>
Perform(e) ==
    CASE e.op = "leaf"    -> MakeLeaf(e.sym, e.value)
      [] e.op = "fill"    -> UNCHANGED <<info, nodes>>     \* leaves nobody refers to
      [] e.op = "nulling" -> MakeNull(e.sym)
      [] e.op = "product" -> MakeProduct(e.l, e.r)
      [] e.op = "sum"     -> MakeSum(e.items)
      [] e.op = "eval"    -> Evaluate(e.at, e.values)
      [] OTHER -> FALSE
TNext == \/ l <= Len(Log[sess].ops) /\ Perform(Log[sess].ops[l]) /\ l' = l + 1 /\ UNCHANGED sess
         \/ l > Len(Log[sess].ops) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
TView == <<sess, l>>

\* ---- generation ----
GInfo == [eval |-> << <<1, "10">>, <<2, "20">>, <<3, "30">> >>, nulled |-> << <<3, 2, TRUE>>, <<4, 3, FALSE>> >>,
          middle |-> << <<3, 1, 2>> >>, sof |-> 5, start |-> 4, rules |-> 6, eof |-> 0]
GInit == sess = 0 /\ l = 0 /\ Init(GInfo)
\* Node kinds as the recognizer combines them: alternatives are products,
\* leaves or sums; a product's left part is not a bare product.
Unit == {k \in 1..Len(nodes) : nodes[k].n \in {"leaf", "sum"}}
Prods == {k \in 1..Len(nodes) : nodes[k].n = "prod"}
GNext == /\ Len(nodes) < MaxNodes
         /\ \/ MakeLeaf(ToString((Len(nodes) % 2) + 6), ToString(Len(nodes)))
            \/ \E a, b \in Unit : a <= b /\ MakeProduct(a, b)
            \/ \E a \in Unit \cup Prods, d \in {1, 3, 4, 5} : MakeSum(<< <<d, a>> >>)
            \/ \E a, b \in Unit \cup Prods, d \in {1, 2}, e \in {2, 3, 5} :
                  <<d, a>> # <<e, b>> /\ MakeSum(<< <<d, a>>, <<e, b>> >>)
         /\ UNCHANGED <<sess, l>>
\* only complete forests: every node but the last is used by a later one
Used(k) == \E j \in 1..Len(nodes) : CASE nodes[j].n = "prod" -> k \in {nodes[j].l, nodes[j].r}
                                      [] nodes[j].n = "sum" -> \E i \in 1..Len(nodes[j].items) : nodes[j].items[i][2] = k
                                      [] OTHER -> FALSE
Emit == (/\ nodes # <<>> /\ nodes[Len(nodes)].n = "sum" /\ Whole(info, nodes, Len(nodes))
         /\ \A k \in 1..(Len(nodes) - 1) : Used(k))
        => PrintT(<<"GEN", ToJson([info |-> info, nodes |-> nodes, meaning |-> Alts(info, nodes, Len(nodes))])>>)
\* At least one alternative each; sums add, products multiply.
RECURSIVE Count(_)
Count(k) == LET x == nodes[k]
            IN CASE x.n = "prod" -> Count(x.l) * Count(x.r)
                 [] x.n = "sum" -> FoldLeft(LAMBDA n, it : n + Count(it[2]), 0, x.items)
                 [] OTHER -> 1
Counted == \A k \in 1..Len(nodes) : Len(Alts(info, nodes, k)) = Count(k) /\ Count(k) >= 1
GSpec == GInit /\ [][GNext]_vars
=============================================================================
