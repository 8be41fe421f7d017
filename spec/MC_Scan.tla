--------------------------------- MODULE MC_Scan ---------------------------------
(***************************************************************************)
(* Closed model of SdsScan: every way three rules can find one span each    *)
(* (or nothing) in a short string, with and without a changing action. The  *)
(* properties of overlap resolution and rewriting are checked on every       *)
(* behaviour, and every initial state is printed to be replayed in the code. *)
(***************************************************************************)
EXTENDS SdsScan, TLC, Json

CONSTANTS N,          \* length of the string
          R           \* number of rules

Text0 == [i \in 1..N |-> IF i % 3 = 0 THEN 233 ELSE 96 + i]       \* a b é d e é
Spans == {<<a, b>> : a \in 0..(N - 1), b \in 1..N}
Cands == {<<>>} \cup {<<sp>> : sp \in {x \in Spans : x[1] < x[2]}}
Acts == {[t |-> "none"], [t |-> "redact", r |-> <<42>>], [t |-> "first", n |-> 2]}

Rule(c, act) == [k |-> "script", act |-> act, spans |-> << [s |-> Text0, cs |-> c] >>, whole |-> FALSE,
                 multipass |-> FALSE, scope |-> [t |-> "all"]]

Vec(rs) == PrintT(<<"VEC", ToJson([rules |-> [j \in 1..R |-> [act |-> rs[j].act, cs |-> rs[j].spans[1].cs]], s |-> Text0])>>)

Init == \E cs \in [1..R -> Cands], as \in [1..R -> Acts] :
          LET rs == [j \in 1..R |-> Rule(cs[j], as[j])] IN
          /\ \E j \in 1..R : cs[j] # <<>>
          \* two changing actions only for the first rule: the others are symmetric
          /\ \A j \in 2..R : as[j].t # "first"
          /\ StartScan([rules |-> rs, comp |-> [j \in 1..R |-> NEmpty], implicit |-> FALSE, kwpath |-> FALSE, multipass |-> TRUE,
                        retval |-> FALSE, blocked |-> {}, enc |-> "utf8", tab |-> <<>>, mode |-> "leftmost"],
                       << [p |-> <<>>, s |-> Text0] >>)
          /\ Vec(rs)
Next == ScanNext

Cand == ValuesOf(found[1])
Kept == Keep(cfg, Cand)
Fin == phase = "done"

(* the steps reach the outcome that the definition gives *)
SameOutcome == Fin => LET o == Outcome(cfg, << [p |-> <<>>, s |-> Text0] >>) IN o.out = out /\ o.leaves[1] = leaves[1].s
NoOverlap == Fin => \A x, y \in Kept : x # y => ~Overlap(x, y)
DroppedOnlyForBetter == Fin => \A x \in Cand \ Kept : \E y \in Kept : Overlap(x, y) /\ Before(cfg, y, x)
AllReported == Fin => Len(out) = Cardinality(Kept)
(* text outside of the reported places is the old text outside of the kept candidates *)
Outside == Fin =>
  LET ks == SortStart(Kept)
      t == leaves[1].s IN
  \A j \in 0..Len(ks) :
     LET a == IF j = 0 THEN 0 ELSE ks[j].b
         b == IF j = Len(ks) THEN N ELSE ks[j + 1].a
         a2 == IF j = 0 THEN 0 ELSE out[j].end
         b2 == IF j = Len(ks) THEN Width("utf8", t) ELSE out[j + 1].start IN
     b2 - a2 = Off8(Text0, b) - Off8(Text0, a)
ShiftIsMove == Fin => \A j \in 1..Len(out) : out[j].end - out[j].shift = Off8(Text0, SortStart(Kept)[j].b)
Ascending == Fin => \A i, j \in 1..Len(out) : i < j => out[i].end <= out[j].start
Untouched == (Fin /\ \A j \in 1..R : ~Mutating(cfg.rules[j].act)) => leaves[1].s = Text0 /\ \A j \in 1..Len(out) : out[j].shift = 0
ChangingWins == Fin => \A x \in Cand : (Mutating(cfg.rules[x.r].act) /\ x \notin Kept) =>
                            \E y \in Kept : Overlap(x, y) /\ Mutating(cfg.rules[y.r].act)
=================================================================================
