--------------------------------- MODULE MC_Words ---------------------------------
(***************************************************************************)
(* Closed model of proximity keywords: a text is typed character by          *)
(* character, and in every state the rule "1" or "1+" with included or excl. *)
(* keywords is applied to it. Every text up to L characters over a small      *)
(* alphabet, every keyword and every window; the texts that end in a match   *)
(* are printed to be replayed in the code.                                   *)
(***************************************************************************)
EXTENDS Detect, TLC, Json

CONSTANTS L, Sigma, MaxLa, Plus

VARIABLES rule, text
mv == <<rule, text>>

K == 107
X == 120
KwSet == {<<K>>, <<K, X>>, <<K, 45, X>>, <<K, 32, X>>, <<233>>, <<45>>}
Pairs == {<< <<K>>, <<X>> >>, << <<45>>, <<K>> >>}
Pats == {<<49>>} \cup IF Plus THEN {<<49, 43>>} ELSE {}                       \* 1 and 1+
NOf == [p \in Pats |-> Compile(p).n]

Kw(la, i, ws) == [la |-> la, inc |-> IF i THEN ws ELSE <<>>, exc |-> IF i THEN <<>> ELSE ws]
Rules == { [k |-> "regex", pat |-> p, kw |-> Kw(la, i, ws)] : p \in Pats, la \in 1..MaxLa, i \in BOOLEAN, ws \in {<<w>> : w \in KwSet} \cup Pairs }
Init == rule \in {r \in Rules : KeywordsError(r.kw) = "ok"} /\ text = <<>>
Type == /\ Len(text) < L
        /\ \E c \in Sigma : text' = Append(text, c)
        /\ UNCHANGED rule
Next == Type

Reports(s) == {m[1] : m \in ValuesOf(RegexFinds(rule, NOf[rule.pat], s, <<>>, FALSE, "leftmost"))}
Ones(s) == {i \in 0..(Len(s) - 1) : s[i + 1] = 49 /\ (Len(rule.pat) = 2 /\ i > 0 => s[i] # 49)}

Emit == (text # <<>> /\ text[Len(text)] = 49) => PrintT(<<"VEC", ToJson([pat |-> rule.pat, kw |-> rule.kw, s |-> text])>>)

(* a match is reported exactly when its keyword begins at most la characters before it *)
IncludedExact == HasInc(rule) =>
  Reports(text) = {i \in Ones(text) : \E p \in 0..i : OccursAt(IncKeywords(rule.kw), text, p) /\ i - p <= rule.kw.la}
(* a match is withheld only if the characters of the keyword stand, in order and within la characters, before it *)
ExcludedSound == ~HasInc(rule) =>
  \A i \in Ones(text) \ Reports(text) :
     \E a \in Max2(0, i - rule.kw.la)..i : \E b \in a..i : Strip(Sub(text, a, b)) \in ValuesOf(ExcKeywords(rule.kw))
(* ... and always if the keyword stands there between blanks *)
ExcludedComplete == ~HasInc(rule) =>
  \A i \in Ones(text) : \A k \in ValuesOf(rule.kw.exc) :
     (\E a \in Max2(1, i - rule.kw.la)..i : /\ text[a] = 32 /\ a + Len(k) < i
                                            /\ Sub(text, a, a + Len(k)) = k /\ text[a + Len(k) + 1] = 32)
     => i \notin Reports(text)
(* what is written later changes nothing *)
Causal == [][Reports(text') \cap (0..(Len(text) - 1)) = Reports(text)]_mv
=================================================================================
