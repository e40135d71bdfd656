------------------------------- MODULE Forest -------------------------------
(***************************************************************************)
(* What a parse forest is: a graph that is only ever added to, and what    *)
(* evaluating a node of it gives.  Both bocages implement this module; how *)
(* they store nodes, share them, or walk them is not visible.              *)
(*                                                                         *)
(* What a forest knows about the grammar (`info`):                         *)
(*   eval   : <<dot, "rule">> pairs: dots that finish a rule of the user   *)
(*   nulled : <<dot, symbol, right>>: a dot's rule left out an empty       *)
(*            symbol, to the right or to the left of its other symbol      *)
(*   middle : <<symbol, left, right>>: an empty symbol that stands for two *)
(*   sof, start : the symbol at the start of the input, the start symbol   *)
(* Nodes are numbered in the order in which they were made:                *)
(*   [n |-> "leaf", sym, value]  [n |-> "null", sym]                       *)
(*   [n |-> "prod", l, r]        [n |-> "sum", items : Seq(<<dot, node>>)] *)
(* A value is text, see CFG; a node means a sequence of alternatives in no *)
(* particular order, each of which is the text of a list of values.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

VARIABLES info, nodes

RECURSIVE NullText(_, _)
NullText(f, y) ==
    LET rs == {k \in 1..Len(f.middle) : f.middle[k][1] = y}
    IN IF rs = {} THEN " ~" \o ToString(y)
       ELSE LET r == f.middle[CHOOSE k \in rs : TRUE]
            IN NullText(f, r[2]) \o NullText(f, r[3])

VisibleId(f, d) == LET es == {k \in 1..Len(f.eval) : f.eval[k][1] = d}
                   IN IF es = {} THEN "" ELSE f.eval[CHOOSE k \in es : TRUE][2]
\* Every left with every right.
Cross(a, b) == FlattenSeq([i \in 1..Len(a) |-> [j \in 1..Len(b) |-> a[i] \o b[j]]])

RECURSIVE Alts(_, _, _)
Alts(f, ns, k) ==
    LET x == ns[k]
        nulledAt(d) == {i \in 1..Len(f.nulled) : f.nulled[i][1] = d}
        filled(d, h, a) ==
            IF ns[h].n = "prod" \/ nulledAt(d) = {} THEN a
            ELSE LET e == f.nulled[CHOOSE i \in nulledAt(d) : TRUE]
                 IN IF e[3] THEN [j \in 1..Len(a) |-> a[j] \o NullText(f, e[2])]
                    ELSE [j \in 1..Len(a) |-> NullText(f, e[2]) \o a[j]]
        item(it) == LET a == filled(it[1], it[2], Alts(f, ns, it[2]))
                        id == VisibleId(f, it[1])
                    IN IF id = "" THEN a ELSE [j \in 1..Len(a) |-> " (" \o id \o a[j] \o ")"]
    IN CASE x.n = "leaf" -> << " " \o x.sym \o ":" \o x.value >>
         [] x.n = "null" -> << NullText(f, x.sym) >>
         [] x.n = "prod" -> Cross(Alts(f, ns, x.l), Alts(f, ns, x.r))
         [] x.n = "sum"  -> FlattenSeq([i \in 1..Len(x.items) |-> item(x.items[i])])

\* The node of a finished parse: one alternative that consists of the start of
\* the input and of what was parsed; or of the start of the input alone, or an
\* empty node, if the input is empty.
IsRoot(f, ns, k) ==
    CASE ns[k].n = "null" -> \A m \in 1..Len(f.middle) : f.middle[m][1] # ns[k].sym
      [] ns[k].n = "sum"  -> /\ Len(ns[k].items) = 1
                             /\ LET h == ns[k].items[1][2]
                                IN CASE ns[h].n = "leaf" -> ns[h].sym = ToString(f.sof)
                                     [] ns[h].n = "prod" -> ns[ns[h].l].n = "leaf" /\ ns[ns[h].l].sym = ToString(f.sof)
                                     [] OTHER -> FALSE
      [] OTHER -> FALSE
Meaning(f, ns, k) ==
    IF ns[k].n = "null" THEN Alts(f, ns, k)
    ELSE LET h == ns[k].items[1][2]
         IN IF ns[h].n = "leaf" THEN << NullText(f, f.start) >> ELSE Alts(f, ns, ns[h].r)

\* ---- the operations ----
Init(f) == info = f /\ nodes = <<>>
Add(x) == nodes' = Append(nodes, x) /\ UNCHANGED info
MakeLeaf(s, v) == Add([n |-> "leaf", sym |-> s, value |-> v])
MakeNull(s) == Add([n |-> "null", sym |-> s])
MakeProduct(l, r) == /\ {l, r} \subseteq 1..Len(nodes)
                     /\ Add([n |-> "prod", l |-> l, r |-> r])
MakeSum(items) == /\ items # <<>>
                  /\ \A i \in 1..Len(items) : items[i][2] \in 1..Len(nodes)
                  /\ Add([n |-> "sum", items |-> items])
\* The values of a root are only told apart if each alternative is one value.
Whole(f, ns, k) == ns[k].n # "sum" \/ \A i \in 1..Len(ns[k].items) : VisibleId(f, ns[k].items[i][1]) # ""
\* Evaluation is a question: it changes nothing that can be seen.
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in ToSet(a) : Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
Evaluate(k, values) == /\ k \in 1..Len(nodes) /\ IsRoot(info, nodes, k)
                       /\ SameBag(values, Meaning(info, nodes, k))
                       /\ UNCHANGED <<info, nodes>>
=============================================================================
