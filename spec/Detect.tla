--------------------------------- MODULE Detect ---------------------------------
(***************************************************************************)
(* What one rule finds in one string, before overlaps between rules are     *)
(* resolved. A rule is                                                      *)
(*   [k |-> "script", spans, whole, multipass, act, scope]    a user's own   *)
(*   [k |-> "regex", pat, act, scope, (kw), (val)]                          *)
(***************************************************************************)
EXTENDS Regex, Keywords, Validators

Has1(r, f) == f \in DOMAIN r
HasKw(r) == Has1(r, "kw")
HasInc(r) == HasKw(r) /\ r.kw.inc # <<>>

(* A match that a secondary validator refuses, or that has an excluded keyword before it. *)
FalsePositive(r, s, m, checkExc) ==
  \/ /\ checkExc /\ HasKw(r) /\ r.kw.exc # <<>>
     /\ ExcludedBefore(ExcKeywords(r.kw), r.kw.la, s, m[1])
  \/ /\ Has1(r, "val") /\ r.val # ""
     /\ ~ValidMatch(r.val, Sub(s, m[1], m[2]))

(* Matches from position i on. The search goes on after an accepted match, and one character after  *)
(* the start of a refused one.                                                                       *)
RECURSIVE TruePositives(_, _, _, _, _)
TruePositives(r, n, s, i, checkExc) ==
  LET m == Find(n, s, i) IN
  IF m = <<>> THEN <<>>
  ELSE IF FalsePositive(r, s, m, checkExc)
       THEN IF m[1] + 1 < Len(s) THEN TruePositives(r, n, s, m[1] + 1, checkExc) ELSE <<>>
       ELSE <<m>> \o TruePositives(r, n, s, m[2], checkExc)

(* How many matches are refused for an excluded keyword, whatever a validator says about them. *)
RECURSIVE Refused(_, _, _, _)
Refused(r, n, s, i) ==
  LET m == Find(n, s, i) IN
  IF m = <<>> THEN 0
  ELSE LET exc == r.kw.exc # <<>> /\ ExcludedBefore(ExcKeywords(r.kw), r.kw.la, s, m[1]) IN
       (IF exc THEN 1 ELSE 0) +
       (IF ~FalsePositive(r, s, m, TRUE) THEN Refused(r, n, s, m[2])
        ELSE IF m[1] + 1 < Len(s) THEN Refused(r, n, s, m[1] + 1) ELSE 0)
RefusedIn(r, n, s) == IF r.k = "regex" /\ HasKw(r) /\ ~HasInc(r) THEN Refused(r, n, s, 0) ELSE 0

(* Included keywords: keyword by keyword, the matches that start at or after it and within its       *)
(* look-ahead. The search for matches never goes back behind a match that was found.                 *)
RECURSIVE Within(_, _, _, _, _)
Within(tps, k, la, j, from) ==       \* [out, from, pos]: pos = where the next keyword may be, -1: the matches ran out
  IF j > Len(tps) THEN [out |-> <<>>, from |-> from, pos |-> -1]
  ELSE IF tps[j][1] - k <= la
       THEN LET r == Within(tps, k, la, j + 1, tps[j][2]) IN [r EXCEPT !.out = <<tps[j]>> \o @]
       ELSE [out |-> <<>>, from |-> from, pos |-> Max2(k + 1, tps[j][1] - la)]
RECURSIVE AfterKeywords(_, _, _, _, _, _, _)
AfterKeywords(r, n, s, kws, pos, from, mode) ==
  LET k == NextKeyword(kws, s, pos, mode) IN
  IF k < 0 THEN <<>>
  ELSE LET w == Within(TruePositives(r, n, s, Max2(k, from), FALSE), k, r.kw.la, 1, from) IN
       w.out \o (IF w.pos < 0 THEN <<>> ELSE AfterKeywords(r, n, s, kws, w.pos, w.from, mode))

RegexFinds(r, n, s, P, kwpath, mode) ==
  IF ~HasInc(r) THEN TruePositives(r, n, s, 0, TRUE)
  ELSE LET kws == IncKeywords(r.kw)
           near == AfterKeywords(r, n, s, kws, 0, 0, mode) IN
       IF kwpath /\ KeywordInPath(kws, P) THEN near \o TruePositives(r, n, s, 0, FALSE) ELSE near

ScriptFinds(r, s) ==
  IF r.whole THEN IF s = <<>> THEN <<>> ELSE << <<0, Len(s)>> >>
  ELSE LET hit == {k \in 1..Len(r.spans) : r.spans[k].s = s} IN
       IF hit = {} THEN <<>> ELSE r.spans[CHOOSE k \in hit : TRUE].cs

(* n: the compiled pattern (unused for scripted rules) *)
Finds(r, n, s, P, kwpath, mode) ==
  IF r.k = "script" THEN ScriptFinds(r, s) ELSE RegexFinds(r, n, s, P, kwpath, mode)

UsesMultipass(r) == IF r.k = "script" THEN r.multipass ELSE TRUE
=================================================================================
