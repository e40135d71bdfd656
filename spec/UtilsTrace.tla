----------------------------- MODULE UtilsTrace -----------------------------
(***************************************************************************)
(* The convenience parsers: what they answer for a list of tokens, a list  *)
(* of words, or a text.  The language is that of module CFG.               *)
(* An answer is [kind, tokens, at, word]:                                  *)
(*   "yes"     the input is a sentence                                     *)
(*   "no"      it is not, but it could still become one                    *)
(*   "unfinished" the same, as an error                                    *)
(*   "syntax"  it could not go on at token `at`, which was one of `tokens` *)
(*   "unknown" `word` does not name a symbol                               *)
(***************************************************************************)
EXTENDS CFG, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, l
vars == <<sess, l>>

S == Log[sess]
g == S.cfg

Least(X) == CHOOSE x \in X : \A y \in X : x <= y
\* The number of tokens that can be read before there is no sentence to go on with.
Readable(w) ==
    LET E == TLCEval(Expected(TLCEval(Proper(g)), w))
        bad == {i \in 1..Len(w) : \A t \in w[i] : t \in Terminals(g) => <<t, i - 1>> \notin E}
    IN IF bad = {} THEN Len(w) ELSE Least(bad) - 1

\* slack: how much earlier than necessary an error may come (lookahead)
Answer(w, r, slack, shown(_), strict) ==
    LET n == Readable(w)
    IN IF n = Len(w)
       THEN IF Derives(g, w) THEN r.kind = "yes"
            ELSE r.kind = "no" \/ (r.kind = "unfinished" /\ ~strict)
       ELSE /\ r.kind = "syntax"
            /\ r.at \in (n - slack)..n /\ r.at >= 0
            /\ ToSet(r.tokens) = shown(r.at + 1)

Perform(e) ==
    CASE e.op = "parse" ->
            /\ Answer(Str(e.word), e.res, 1, LAMBDA i : {e.word[i]}, TRUE)
            /\ e.res.kind = "yes" => e.node
            /\ e.res.kind = "no" => ~e.node
            \* every tree reads the tokens in order, each with its position as value
            /\ ("leaves" \in DOMAIN e /\ e.res.kind = "yes")
                  => e.leaves = <<FoldLeft(LAMBDA t, k : t \o " " \o ToString(e.word[k]) \o ":" \o ToString(k - 1),
                                          "", [k \in 1..Len(e.word) |-> k])>>
      [] e.op = "words" ->
            LET known == {k \in 1..Len(e.list) : \E y \in 1..Len(g.names) : g.names[y] = e.list[k]}
                sym(x) == (CHOOSE y \in 1..Len(g.names) : g.names[y] = x) - 1
            IN IF known = 1..Len(e.list)
               THEN LET w == [k \in 1..Len(e.list) |-> sym(e.list[k])]
                    IN Answer(Str(w), e.res, 1, LAMBDA i : {w[i]}, FALSE)
               ELSE e.res.kind = "unknown" /\ e.res.word = e.list[Least((1..Len(e.list)) \ known)]
      [] e.op = "chars" ->
            \* codes: the characters of the text; classes: <<from, to, symbol>>
            LET read(ch) == {S.codes[c][3] : c \in {c \in 1..Len(S.codes) : S.codes[c][1] <= ch /\ ch <= S.codes[c][2]}}
                w == [k \in 1..Len(e.codes) |-> read(e.codes[k])]
            IN Answer(w, e.res, 0, LAMBDA i : w[i], FALSE)
      [] OTHER -> FALSE

TInit == sess \in 1..Len(Log) /\ l = 1
TNext == \/ l <= Len(S.ops) /\ TRUE = Perform(S.ops[l]) /\ l' = l + 1 /\ UNCHANGED sess
         \/ l > Len(S.ops) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
TView == <<sess, l>>
=============================================================================
