------------------------------ MODULE TraceMetrics ------------------------------
(***************************************************************************)
(* Judges "metrics" records: several scans by one scanner, and its counters  *)
(* after each of them. The counters are a function of the history of scans:  *)
(* (name, labels) -> how often the thing happened.                           *)
(***************************************************************************)
EXTENDS ScanCase

VARIABLES l, j, ctr, why      \* record, scan of it, counters according to the specification, first deviation

Labels(in) == in.opts.labels
RuleLabels(in, r) == Labels(in) \o (IF r.k = "regex" /\ Has1(r, "labels") THEN r.labels ELSE <<>>)
ExcKwLabel == << << <<116, 121, 112, 101>>,
                 <<101, 120, 99, 108, 117, 100, 101, 100, 95, 107, 101, 121, 119, 111, 114, 100, 115>> >> >>     \* type: excluded_keywords

(* What one scan adds: <<[name, labels, n], ...>> *)
Adds(in, c, ev) ==
  LET ex == UNION {Remembered(c, ev[i].s, ev[i].p) : i \in 1..Len(ev)}
      gone == Dropped(c, ex, ev)
      one(r) ==
        LET rl == RuleLabels(in, in.rules[r])
            drop == Times(r, gone)
            ref == SumOver([i \in 1..Len(ev) |-> IF Looks(c, r, ev[i].p) THEN RefusedIn(c.rules[r], c.comp[r], ev[i].s) ELSE 0])
        IN << [name |-> IF in.rules[r].k = "script" THEN "script.excluded" ELSE "false_positive.multipass.excluded_match",
               labels |-> rl, n |-> drop],
              [name |-> "false_positive.proximity_keywords", labels |-> rl \o ExcKwLabel, n |-> ref] >>
  IN << [name |-> "scanned_events", labels |-> Labels(in), n |-> 1],
        [name |-> "scanning.match_count", labels |-> Labels(in), n |-> Len(Outcome(c, ev).out)] >>
     \o Flatten([r \in 1..Len(in.rules) |-> one(r)])

Total(q, name, labels) == SumOver([i \in 1..Len(q) |-> IF q[i].name = name /\ SameElements(q[i].labels, labels) THEN q[i].n ELSE 0])

(* The counters of the record say the same as those of the specification; a counter that was never     *)
(* increased may be missing. The duration is only known to be positive (recorded as 1).               *)
Wrong(rec, q, ls) ==
  LET bad == {i \in 1..Len(rec) : rec[i].name # "scanning.duration" /\ rec[i].n # Total(q, rec[i].name, rec[i].labels)}
      missing == {i \in 1..Len(q) : q[i].n > 0 /\ ~\E k \in 1..Len(rec) : rec[k].name = q[i].name /\ SameElements(rec[k].labels, q[i].labels)}
  IN IF bad # {} THEN "counter " \o rec[CHOOSE i \in bad : TRUE].name
     ELSE IF missing # {} THEN "missing counter " \o q[CHOOSE i \in missing : TRUE].name
     ELSE IF ~\E k \in 1..Len(rec) : rec[k].name = "scanning.duration" /\ SameElements(rec[k].labels, ls) /\ rec[k].n = 1
          THEN "no scanning duration"
     ELSE ""

Scan1(in, s) == [rules |-> in.rules, opts |-> in.opts, blocked |-> s.blocked, enc |-> s.enc]

Next1(w) == /\ Report(Cases[l].id, w) /\ Consumed(l) /\ l' = l + 1 /\ j' = 0 /\ ctr' = <<>> /\ why' = ""

Begin ==
  /\ j = 0 /\ l <= Len(Cases)
  /\ LET o == Out(l) ab == Abnormal(o) IN
     IF ab # "" THEN Next1(ab)
     ELSE LET be == BuildErr(In(l), Compiled(In(l))) IN
          IF o.build # be THEN Next1("building the scanner: wrong outcome")
          ELSE IF be # "ok" THEN Next1("")
          ELSE j' = 1 /\ UNCHANGED <<l, ctr, why>>

(* The next scan of the history: counters never go back. *)
DoScan ==
  /\ j > 0 /\ why = "" /\ j <= Len(In(l).scans)
  /\ LET in == In(l)
         s == in.scans[j]
         c == Config(Scan1(in, s), [x |-> 0], Compiled(in), "leftmost")
         q == ctr \o Adds(in, c, s.ev)
         rec == Out(l).steps[j]
         w == Wrong(rec.counters, q, Labels(in)) IN
     /\ ctr' = q
     /\ why' = IF Len(rec.matches) # Len(Outcome(c, s.ev).out) THEN "number of matches" ELSE w
  /\ j' = j + 1 /\ UNCHANGED l

End == j > 0 /\ (why # "" \/ j > Len(In(l).scans)) /\ Next1(why)

\* unused variables of SdsScan
Rest == UNCHANGED vars
Init == /\ l = 1 /\ j = 0 /\ ctr = <<>> /\ why = "" /\ cfg = <<>> /\ leaves = <<>> /\ nxt = 1 /\ found = <<>> /\ excl = {}
        /\ phase = "idle" /\ out = <<>>
Next == (Begin \/ DoScan \/ End) /\ Rest
=================================================================================
