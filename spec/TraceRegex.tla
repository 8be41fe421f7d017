------------------------------- MODULE TraceRegex -------------------------------
(* Judges "regex" records: one pattern, several inputs. *)
EXTENDS Regex, TraceLib

VARIABLE l

Short(e) == CASE e = "ok" -> "ok"
              [] e = "InvalidRegex:InvalidSyntax" -> "InvalidSyntax"
              [] e = "InvalidRegex:ExceededDepthLimit" -> "ExceededDepthLimit"
              [] e = "InvalidRegex:ExceededQuantifierLimit" -> "ExceededQuantifierLimit"
              [] e = "InvalidRegex:MatchesEmptyString" -> "MatchesEmptyString"
              [] e = "InvalidRegex:TooComplex" -> "TooComplex"
              [] OTHER -> "other"

(* A known flaw of the regex engine (not of this library): for a pattern whose alternatives all   *)
(* end in the same literal it can report a match that is not the leftmost one. It shows as a later *)
(* start at the first difference, and disappears when the pattern gets one more alternative.       *)
EngineMiss(o, j, want) ==
  /\ Len(o.guarded) >= j
  /\ o.guarded[j] = want
  /\ \E k \in 1..Len(want) :
       /\ \A h \in 1..(k - 1) : h <= Len(o.spans[j]) /\ o.spans[j][h] = want[h]
       /\ k <= Len(o.spans[j]) /\ o.spans[j][k][1] > want[k][1]

(* Only validation, with the size estimate of the library. *)
WhyValidate(r) ==
  LET o == r.out
      a == Abnormal(o)
      c == Compile(r.in.pat) IN
  IF a # "" THEN a
  ELSE IF Short(o.build) # o.val THEN "validation and building a scanner disagree"
  ELSE IF o.val \notin c.verdicts THEN "accepted/rejected wrongly"
  ELSE IF "size" \notin DOMAIN o THEN ""
  ELSE IF o.val \in {"ok", "MatchesEmptyString", "TooComplex"}
       THEN IF o.size[1] # "ok" THEN "no size for a pattern that can be compiled"
            ELSE IF (o.size[2] > SizeLimit) # (o.val = "TooComplex") THEN "size limit and size estimate disagree"
            ELSE ""
  ELSE IF o.size[1] # o.val THEN "size of a pattern that cannot be compiled" ELSE ""

WhyScan(r) ==
  LET o == r.out
      a == Abnormal(o)
      c == Compile(r.in.pat) IN
  IF a # "" THEN a
  ELSE IF Short(o.build) # o.val THEN "validation and building a scanner disagree"
  ELSE IF o.val \notin c.verdicts THEN "accepted/rejected wrongly"
  ELSE IF o.val = "ok" /\ \E j \in 1..Len(r.in.ins) :
               LET want == FindAll(c.n, r.in.ins[j], 0) IN
               o.spans[j] # want /\ ~(r.in.strict = 0 /\ EngineMiss(o, j, want))
       THEN "matches differ"
  ELSE ""

Why(r) == IF r.in.op = "validate" THEN WhyValidate(r) ELSE WhyScan(r)

Init == l = 0
Next == /\ l < Len(Cases)
        /\ l' = l + 1
        /\ Report(Cases[l + 1].id, Why(Cases[l + 1]))
        /\ Consumed(l + 1)
=================================================================================
