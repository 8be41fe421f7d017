-------------------------------- MODULE Keywords --------------------------------
(***************************************************************************)
(* Proximity keywords: validation, keywords before a match (included and    *)
(* excluded), keywords in the path of the string.                            *)
(***************************************************************************)
EXTENDS Text

MaxKeywords == 50
MaxLookAhead == 50
Removed == {45, 95}                 \* - and _ are ignored by excluded keywords
Links == {45, 95, 46, 32, 47}       \* - _ . space /

Strip(s) == SelectSeq(s, LAMBDA c : c \notin Removed)

(* Errors of a keyword configuration, in the order they are reported. *)
RECURSIVE KwErr(_, _, _)
KwErr(kws, la, strip) ==
  IF kws = <<>> THEN "ok"
  ELSE LET k == Head(kws)
           t == IF strip THEN Strip(Trim(k)) ELSE Trim(k) IN
       IF Len(k) > la THEN "KeywordTooLong"
       ELSE IF t = <<>> THEN "EmptyKeyword"
       ELSE KwErr(Tail(kws), la, strip)
KeywordsError(kw) ==
  IF kw.la < 1 \/ kw.la > MaxLookAhead THEN "InvalidLookAheadCharacterCount"
  ELSE IF Len(kw.inc) > MaxKeywords \/ Len(kw.exc) > MaxKeywords THEN "TooManyKeywords"
  ELSE LET a == KwErr(kw.inc, kw.la, FALSE) IN
       IF a # "ok" THEN a ELSE KwErr(kw.exc, kw.la, TRUE)

IncKeywords(kw) == [k \in 1..Len(kw.inc) |-> Trim(kw.inc[k])]
ExcKeywords(kw) == [k \in 1..Len(kw.exc) |-> Strip(Trim(kw.exc[k]))]

SameCi(a, b) == Fold(a) = Fold(b)

(* Keyword k occurs in s at position i: case is ignored, and it has to stand as a word of its own   *)
(* on a side where it begins / ends with an ASCII letter or digit.                                   *)
Occurs(k, s, i) ==
  /\ i + Len(k) <= Len(s)
  /\ \A j \in 1..Len(k) : SameCi(k[j], s[i + j])
  /\ IsAlnum(k[1]) => Boundary(s, i)
  /\ IsAlnum(k[Len(k)]) => Boundary(s, i + Len(k))

OccursAt(kws, s, i) == \E m \in 1..Len(kws) : Occurs(kws[m], s, i)

(* Next keyword at or after position i: the leftmost one; or (mode "earliest") the one that ends    *)
(* first. The engine may use either, which matters only for keywords contained in other keywords.    *)
EndsOf(kws, s, i) == {i + Len(kws[m]) : m \in {m \in 1..Len(kws) : Occurs(kws[m], s, i)}}
NextKeyword(kws, s, i, mode) ==
  LET at == {p \in i..Len(s) : OccursAt(kws, s, p)} IN
  IF at = {} THEN -1
  ELSE IF mode = "leftmost" THEN CHOOSE p \in at : \A q \in at : p <= q
  ELSE LET ends == UNION {EndsOf(kws, s, p) : p \in at}
           e == CHOOSE e \in ends : \A f \in ends : e <= f
           ps == {p \in at : e \in EndsOf(kws, s, p)} IN
       CHOOSE p \in ps : \A q \in ps : p <= q

(* An excluded keyword lies within the la characters before position i (hyphens and underscores     *)
(* ignored). The characters next to that window count for word boundaries only.                      *)
ExcludedBefore(kws, la, s, i) ==
  LET w == Max2(0, i - la)
      before == IF w > 0 THEN Strip(<<s[w]>>) ELSE <<>>
      window == Strip(Sub(s, w, i))
      after == IF i < Len(s) THEN Strip(<<s[i + 1]>>) ELSE <<>>
      ctx == before \o window \o after IN
  \E p \in Len(before)..(Len(before) + Len(window)) : \E m \in 1..Len(kws) :
      /\ Occurs(kws[m], ctx, p)
      /\ p + Len(kws[m]) <= Len(before) + Len(window)

(* Paths and keywords are brought to one form: lower case words linked by dots, camelCase split. *)
RECURSIVE StdFrom(_, _)
StdFrom(s, k) ==
  IF k > Len(s) THEN <<>>
  ELSE LET c == s[k]
           p == s[k - 1]
           up == IsUpper(c)
           out == IF k = Len(s) THEN <<c>>
                  ELSE IF c \notin Links /\ ~up THEN <<c>>
                  ELSE IF p \in Links THEN <<c>>
                  ELSE IF up THEN IF IsUpper(p) THEN <<c>> ELSE <<46, c>>
                  ELSE <<46>>
       IN out \o StdFrom(s, k + 1)
Standardize(s) == IF s = <<>> THEN <<>>
                  ELSE LET t == <<s[1]>> \o StdFrom(s, 2) IN [k \in 1..Len(t) |-> AsciiLower(t[k])]

RECURSIVE SanitizeFrom(_, _)
SanitizeFrom(P, k) ==
  IF k > Len(P) THEN <<>>
  ELSE IF P[k][1] = "i" THEN SanitizeFrom(P, k + 1)
  ELSE (IF k > 1 THEN <<46>> ELSE <<>>) \o Standardize(P[k][2]) \o SanitizeFrom(P, k + 1)
Sanitize(P) == SanitizeFrom(P, 1)

(* A keyword appears in the path. Word boundaries follow the keyword as configured. *)
OccursInPath(k, path) ==
  LET t == Standardize(k) IN
  \E i \in 0..(Len(path) - Len(t)) :
     /\ \A j \in 1..Len(t) : SameCi(t[j], path[i + j])
     /\ IsAlnum(k[1]) => Boundary(path, i)
     /\ IsAlnum(k[Len(k)]) => Boundary(path, i + Len(t))
KeywordInPath(kws, P) == LET path == Sanitize(P) IN \E m \in 1..Len(kws) : OccursInPath(kws[m], path)
=================================================================================
