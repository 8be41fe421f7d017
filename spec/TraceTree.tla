-------------------------------- MODULE TraceTree --------------------------------
(***************************************************************************)
(* Judges "tree" records: one of the library's own event types was scanned.  *)
(* The strings it shows, the paths it reports and the strings it changes      *)
(* have to be those of the tree.                                             *)
(***************************************************************************)
EXTENDS ScanCase, Tree

VARIABLE l

(* Reports of strings whose order is not promised: string by string. *)
SameReports(got, ev, exp, ordered) ==
  IF ordered THEN got = exp
  ELSE /\ Len(got) = Len(exp)
       /\ \A j \in 1..Len(ev) : SelectSeq(got, LAMBDA m : m.path = ev[j].p) = SelectSeq(exp, LAMBDA m : m.path = ev[j].p)

Judge(in, o, mode) ==
  LET c == Config(in, o, Compiled(in), mode)
      ev == Leaves(in.kind, in.tree, <<>>)
      ex == UNION {Remembered(c, ev[j].s, ev[j].p) : j \in 1..Len(ev)}
      pr == [j \in 1..Len(ev) |-> Process(c, ex, ev[j], Candidates(c, 1, ev[j].s, ev[j].p))]
      places == {ev[j].p : j \in 1..Len(ev)}
      at == [P \in places |-> CHOOSE j \in 1..Len(ev) : ev[j].p = P]
      T == [P \in places |-> pr[at[P]].res.text]
      M == [P \in places |-> pr[at[P]].mutating] IN
  IF ~Becomes(in.tree, o.tree, <<>>, T, M) THEN "the event after the scan"
  ELSE IF ~SameReports(o.matches, ev, Flatten([j \in 1..Len(ev) |-> pr[j].res.reps]), in.kind \in {"string", "simple"})
       THEN "reported matches"
  ELSE ""

Verdict(in, o) ==
  IF Abnormal(o) # "" THEN Abnormal(o)
  ELSE LET be == BuildErr(in, Compiled(in)) IN
       IF o.build # be THEN "building the scanner: wrong outcome"
       ELSE IF be # "ok" THEN ""
       ELSE LET w == Judge(in, o, "leftmost") IN
            IF w = "" THEN "" ELSE IF Ambiguous(in) THEN Judge(in, o, "earliest") ELSE w

Next == /\ l <= Len(Cases)
        /\ Report(Cases[l].id, Verdict(In(l), Out(l))) /\ Consumed(l)
        /\ l' = l + 1 /\ UNCHANGED vars
Init == /\ l = 1 /\ cfg = <<>> /\ leaves = <<>> /\ nxt = 1 /\ found = <<>> /\ excl = {} /\ phase = "idle" /\ out = <<>>
=================================================================================
