--------------------------------- MODULE SdsScan ---------------------------------
(***************************************************************************)
(* A scan of one event by one scanner.                                      *)
(*                                                                         *)
(*   visit phase   every string of the event is shown to the scanner, in     *)
(*                 order; each rule in scope looks for candidates. What a    *)
(*                 rule finds at an excluded place is only remembered.       *)
(*   apply phase   string by string: candidates equal to something found at  *)
(*                 an excluded place are dropped, overlaps are resolved, the  *)
(*                 actions are applied, the matches are reported.            *)
(*                                                                         *)
(* cfg: [rules, comp, implicit, kwpath, multipass, blocked, enc, tab, mode]  *)
(***************************************************************************)
EXTENDS Detect, Scope, Actions
LOCAL INSTANCE SequencesExt

VARIABLES cfg,      \* the scanner and the options of this scan
          leaves,   \* the event: <<[p |-> path, s |-> text], ...>>
          nxt,      \* next string to visit / to process
          found,    \* candidates per string: <<[r |-> rule, a |-> start, b |-> end], ...>>
          excl,     \* texts found at excluded places
          phase,    \* "visit", "apply", "done"
          out       \* reported matches

vars == <<cfg, leaves, nxt, found, excl, phase, out>>

-----------------------------------------------------------------------------
(* Candidates of rule r at one string *)
RuleFinds(c, r, s, P) == Finds(c.rules[r], c.comp[r], s, P, c.kwpath, c.mode)

Looks(c, r, P) ==                  \* rule indices are 1.. here, 0.. in reports
  /\ (r - 1) \notin c.blocked
  /\ InScope(c.rules[r].scope, P, c.implicit)

RECURSIVE Candidates(_, _, _, _)
Candidates(c, r, s, P) ==
  IF r > Len(c.rules) THEN <<>>
  ELSE (IF Looks(c, r, P) /\ ~Excluded(c.rules[r].scope, P, c.implicit)
        THEN LET f == RuleFinds(c, r, s, P) IN [k \in 1..Len(f) |-> [r |-> r, a |-> f[k][1], b |-> f[k][2]]]
        ELSE <<>>) \o Candidates(c, r + 1, s, P)

Remembered(c, s, P) ==
  UNION { LET f == RuleFinds(c, r, s, P) IN {Sub(s, f[k][1], f[k][2]) : k \in 1..Len(f)} :
          r \in {r \in 1..Len(c.rules) : Looks(c, r, P) /\ Excluded(c.rules[r].scope, P, c.implicit)} }

-----------------------------------------------------------------------------
(* Overlaps. Higher priority: a rule that changes the text, then the earlier start, then the longer  *)
(* match, then the earlier rule. A candidate is kept when it overlaps no kept candidate of higher     *)
(* priority.                                                                                         *)
Before(c, x, y) ==
  LET mx == Mutating(c.rules[x.r].act) my == Mutating(c.rules[y.r].act) IN
  IF mx # my THEN mx
  ELSE IF x.a # y.a THEN x.a < y.a
  ELSE IF x.b # y.b THEN x.b > y.b
  ELSE x.r < y.r
Overlap(x, y) == x.a < y.b /\ y.a < x.b

Keep(c, S) ==
  FoldLeft(LAMBDA kept, y : IF \E x \in kept : Overlap(x, y) THEN kept ELSE kept \cup {y},
           {}, SetToSortSeq(S, LAMBDA x, y : Before(c, x, y)))

SortStart(S) == SetToSortSeq(S, LAMBDA x, y : x.a < y.a)

(* Candidates left after multi-pass filtering *)
Filter(c, ex, s, cand) ==
  {cand[k] : k \in {k \in 1..Len(cand) :
      ~(c.multipass /\ UsesMultipass(c.rules[cand[k].r]) /\ Sub(s, cand[k].a, cand[k].b) \in ex)}}

(* Rewriting: the kept matches in order of position. The text between matches is copied; indices of  *)
(* a report point into the new text; the shift is how far the end of the match moved.                *)
RECURSIVE Rewrite(_, _, _, _, _, _)
Rewrite(c, P, s, ms, pos, acc) ==     \* acc: [text, w: its width, old: width of s up to pos, reps]
  IF ms = <<>> THEN [text |-> FlattenSeq(Append(acc.text, Sub(s, pos, Len(s)))), reps |-> acc.reps]
  ELSE LET m == Head(ms)
           act == c.rules[m.r].act
           gap == Sub(s, pos, m.a)
           was == Sub(s, m.a, m.b)
           new == Replace(act, was, c.tab)
           start == acc.w + Width(c.enc, gap)
           end == start + Width(c.enc, new)
           old == acc.old + Width(c.enc, gap) + Width(c.enc, was)
           rep == [rule |-> m.r - 1, path |-> P, rt |-> ReplacementType(act), start |-> start, end |-> end,
                   shift |-> end - old, val |-> IF c.retval THEN <<was>> ELSE <<>>,
                   status |-> IF Has1(c.rules[m.r], "mv") THEN "NotChecked" ELSE "NotAvailable"]
       IN Rewrite(c, P, s, Tail(ms), m.b,
                  [text |-> acc.text \o <<gap, new>>, w |-> end, old |-> old, reps |-> Append(acc.reps, rep)])

Process(c, ex, leaf, cand) ==
  LET kept == SortStart(Keep(c, Filter(c, ex, leaf.s, cand))) IN
  [res |-> Rewrite(c, leaf.p, leaf.s, kept, 0, [text |-> <<>>, w |-> 0, old |-> 0, reps |-> <<>>]),
   mutating |-> \E k \in 1..Len(kept) : Mutating(c.rules[kept[k].r].act)]

(* The outcome of a whole scan. The actions below reach the same outcome step by step. *)
Outcome(c, ev) ==
  LET ex == UNION {Remembered(c, ev[j].s, ev[j].p) : j \in 1..Len(ev)}
      pr == [j \in 1..Len(ev) |-> Process(c, ex, ev[j], Candidates(c, 1, ev[j].s, ev[j].p)).res] IN
  [leaves |-> [j \in 1..Len(ev) |-> pr[j].text], out |-> Flatten([j \in 1..Len(ev) |-> pr[j].reps])]

-----------------------------------------------------------------------------
StartScan(c, ev) ==
  /\ cfg = c
  /\ leaves = ev
  /\ nxt = 1 /\ found = <<>> /\ excl = {} /\ phase = "visit" /\ out = <<>>

Visit ==
  /\ phase = "visit" /\ nxt <= Len(leaves)
  /\ LET P == leaves[nxt].p
         s == leaves[nxt].s IN
     /\ found' = Append(found, Candidates(cfg, 1, s, P))
     /\ excl' = excl \cup Remembered(cfg, s, P)
  /\ nxt' = nxt + 1
  /\ UNCHANGED <<cfg, leaves, phase, out>>

StartApply ==
  /\ phase = "visit" /\ nxt > Len(leaves)
  /\ phase' = "apply" /\ nxt' = 1
  /\ UNCHANGED <<cfg, leaves, found, excl, out>>

Apply ==
  /\ phase = "apply" /\ nxt <= Len(leaves)
  /\ LET r == Process(cfg, excl, leaves[nxt], found[nxt]).res IN
     /\ leaves' = [leaves EXCEPT ![nxt].s = r.text]
     /\ out' = out \o r.reps
  /\ nxt' = nxt + 1
  /\ UNCHANGED <<cfg, found, excl, phase>>

EndScan ==
  /\ phase = "apply" /\ nxt > Len(leaves)
  /\ phase' = "done"
  /\ UNCHANGED <<cfg, leaves, nxt, found, excl, out>>

ScanNext == Visit \/ StartApply \/ Apply \/ EndScan
=================================================================================
