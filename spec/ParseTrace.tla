----------------------------- MODULE ParseTrace -----------------------------
(***************************************************************************)
(* Whole parses, from the grammar as the user wrote it to the values that  *)
(* evaluating a forest gives: the definition is module CFG alone.          *)
(* A session holds a grammar (cfg), a word, and what was seen: at which    *)
(* locations a parse was finished, and the values of evaluations, in the   *)
(* order in which they were asked for.                                     *)
(***************************************************************************)
EXTENDS CFG, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, l, spans
vars == <<sess, l, spans>>

S == Log[sess]
Ext == S.cfg
ValueAt(i) == IF "values" \in DOMAIN S THEN S.values[i + 1] ELSE ToString(i)

\* Derivations, each with its text: two derivations may read alike, if they
\* differ in rules that are not visible.
Visible(k) == Ext.rules[k].id >= 0
RECURSIVE Derivs(_, _, _, _), SeqDerivs(_, _, _, _)
Derivs(f, x, i, j) ==
    IF RulesOf(Ext, x) = {} THEN IF j = i + 1 /\ j \in f[x][i]
                                 THEN LET t == " " \o ToString(x) \o ":" \o ValueAt(i) IN {<<t, t>>} ELSE {}
    ELSE IF i = j THEN IF j \in f[x][i] THEN LET t == " ~" \o ToString(x) IN {<<t, t>>} ELSE {}
    ELSE IF j \notin f[x][i] THEN {}
    ELSE UNION { LET ts == SeqDerivs(f, Ext.rules[k].rhs, i, j)
                 IN {<<" [" \o ToString(k) \o t[1] \o "]",
                       IF Visible(k) THEN " (" \o ToString(Ext.rules[k].id) \o t[2] \o ")" ELSE t[2]>> : t \in ts}
                 : k \in RulesOf(Ext, x) }
SeqDerivs(f, rhs, i, j) ==
    IF rhs = <<>> THEN IF i = j THEN {<<"", "">>} ELSE {}
    ELSE UNION { LET rest == SeqDerivs(f, Tail(rhs), k, j)
                 IN IF rest = {} THEN {}
                    ELSE {<<a[1] \o b[1], a[2] \o b[2]>> : a \in Derivs(f, Head(rhs), i, k), b \in rest}
                 : k \in {k \in f[Head(rhs)][i] : k <= j} }
TextsOf(f, m) == LET ds == TLCEval(Derivs(f, Ext.root, 0, m))
                 IN [t \in {d[2] : d \in ds} |-> Cardinality({d \in ds : d[2] = t})]
\* values : a sequence in which every text occurs as often as it has derivations
Matches(values, texts) ==
    /\ ToSet(values) = DOMAIN texts
    /\ \A t \in DOMAIN texts : Cardinality({k \in 1..Len(values) : values[k] = t}) = texts[t]
Within(values, texts) ==
    /\ values # <<>>
    /\ ToSet(values) \subseteq DOMAIN texts
    /\ \A t \in ToSet(values) : Cardinality({k \in 1..Len(values) : values[k] = t}) <= texts[t]

Perform(e) ==
    LET n == Len(S.word)
        isSentence(m) == m \in spans[Ext.root][0]
    IN CASE e.op = "parse" ->
              \* finished[1] : before anything; finished[m + 2] : after m tokens
              /\ e.stopped = -1 => Len(e.finished) = n + 2
              /\ e.stopped >= 0 => Len(e.finished) = e.stopped + 2
              /\ e.finished[1] = isSentence(0)
              /\ \A m \in 0..(Len(e.finished) - 2) :
                    IF "hint" \in DOMAIN S /\ m < n THEN e.finished[m + 2] => isSentence(m)
                    ELSE e.finished[m + 2] = isSentence(m)
              \* announcing a token that cannot follow may stop one token early
              /\ e.stopped >= 0 => \A m \in (e.stopped + 1)..n :
                    isSentence(m) => m = e.stopped + 1 /\ m < n /\ "hint" \in DOMAIN S
         [] e.op = "eval" ->
              LET m == IF e.at = 0 THEN 0 ELSE e.at - 1
                  \* read under a hint that more follows: what cannot precede
                  \* the hinted token may be left out
              IN IF "hint" \in DOMAIN S /\ m < n THEN Within(e.values, TextsOf(spans, m))
                 ELSE Matches(e.values, TextsOf(spans, m))
         [] OTHER -> FALSE

TInit == sess \in 1..Len(Log) /\ l = 1 /\ spans = <<>>
Load == l = 1 /\ spans = <<>> /\ spans' = Spans(Ext, Str(S.word)) /\ UNCHANGED <<sess, l>>
Ev == /\ spans # <<>> /\ l <= Len(S.ops)
      /\ TRUE = Perform(S.ops[l])
      /\ l' = l + 1 /\ UNCHANGED <<sess, spans>>
Done == l > Len(S.ops) /\ UNCHANGED vars
TNext == Load \/ Ev \/ Done
TSpec == TInit /\ [][TNext]_vars
TView == <<sess, l, spans = <<>>>>
=============================================================================
