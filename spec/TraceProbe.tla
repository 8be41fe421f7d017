-------------------------------- MODULE TraceProbe -------------------------------
(***************************************************************************)
(* Judges "probe" records: scans by a scanner with rules of the user's own,   *)
(* which record every call the library makes. The state is what such a rule   *)
(* relies on: the string being scanned, the rules that still have to be        *)
(* asked about it, the data shared by the rules asked before.                  *)
(*   group data    one per type and string                                    *)
(*   scan cache    one per type and scan                                      *)
(*   group config  one per type and scanner, made from all its rules           *)
(***************************************************************************)
EXTENDS ScanCase

VARIABLES l, j, k,        \* record, scan of it, next call of that scan
          str,            \* string being scanned
          exd,            \* rules (0..) that it is excluded for
          pend,           \* rules that have to be asked about it (1..)
          gd, sc,         \* type -> rules that used the data, in order
          why             \* first deviation

View == <<l, j, k, str, why>>      \* the run is deterministic: this identifies a state

Probes(in) == {r \in 1..Len(in.rules) : in.rules[r].k = "script"}
Scan1(in, s) == [rules |-> in.rules, opts |-> in.opts, blocked |-> s.blocked, enc |-> s.enc]
Fresh == [t \in {0, 1} |-> <<>>]
ThisScan == In(l).scans[j]
Rec == Out(l).steps[j]

Next1(w) == /\ Report(Cases[l].id, w) /\ Consumed(l) /\ l' = l + 1 /\ j' = 0 /\ k' = 1 /\ str' = 0 /\ exd' = {} /\ pend' = {}
            /\ gd' = Fresh /\ sc' = Fresh /\ why' = "" /\ UNCHANGED cfg

(* Every rule is made once, with its place in the list and the labels of the scanner. *)
BadMade(in, made) ==
  \/ Len(made) # Cardinality(Probes(in))
  \/ \E r \in Probes(in) : ~\E m \in 1..Len(made) : made[m][1] = r - 1 /\ SameElements(made[m][2], in.opts.labels)

Begin ==
  /\ j = 0 /\ l <= Len(Cases)
  /\ LET in == In(l) o == Out(l) ab == Abnormal(o) IN
     IF ab # "" THEN Next1(ab)
     ELSE LET comp == Compiled(in) be == BuildErr(in, comp) IN
          IF o.build # be THEN Next1("building the scanner: wrong outcome")
          ELSE IF be # "ok" THEN Next1("")
          ELSE IF BadMade(in, o.made) THEN Next1("rules made")
          ELSE /\ j' = 1 /\ k' = 1 /\ str' = 0 /\ exd' = {} /\ pend' = {} /\ gd' = Fresh /\ sc' = Fresh
               /\ cfg' = Config(Scan1(in, in.scans[1]), in, comp, "leftmost")
               /\ UNCHANGED <<l, why>>

(* The next string of the event: group data starts anew. *)
NextString ==
  /\ j > 0 /\ why = "" /\ pend = {} /\ str < Len(ThisScan.ev)
  /\ str' = str + 1
  /\ pend' = {r \in Probes(In(l)) : Looks(cfg, r, ThisScan.ev[str + 1].p)}
  /\ exd' = {r - 1 : r \in {r \in 1..Len(cfg.rules) : Excluded(cfg.rules[r].scope, ThisScan.ev[str + 1].p, cfg.implicit)}}
  /\ gd' = Fresh
  /\ UNCHANGED <<l, j, k, sc, why, cfg>>

Configured(in, t) == {r - 1 : r \in {r \in Probes(in) : in.rules[r].probe[2] = t}}

WrongCall(c, leaf) ==
  LET in == In(l) t == in.rules[c.r + 1].probe IN
  IF c.s # leaf.s THEN "text handed to a rule"
  ELSE IF c.p # leaf.p THEN "path handed to a rule"
  ELSE IF ValuesOf(c.ex) # exd THEN "exclusion check"
  ELSE IF c.kw # cfg.kwpath THEN "option for keywords in paths"
  ELSE IF ~SameElements(c.labels, in.opts.labels) THEN "labels of the group data"
  ELSE IF c.gd # gd[t[1]] THEN "group data"
  ELSE IF c.sc # sc[t[3]] THEN "scan cache"
  ELSE IF Len(c.gc) # Cardinality(Configured(in, t[2])) \/ ValuesOf(c.gc) # Configured(in, t[2]) THEN "group config"
  ELSE ""

Ask ==
  /\ j > 0 /\ why = "" /\ pend # {}
  /\ IF k > Len(Rec.calls) THEN why' = "a rule was not asked about a string" /\ UNCHANGED <<k, pend, gd, sc>>
     ELSE LET c == Rec.calls[k] IN
          IF (c.r + 1) \notin pend THEN why' = "a rule was asked about a string out of turn" /\ UNCHANGED <<k, pend, gd, sc>>
          ELSE LET t == In(l).rules[c.r + 1].probe IN
               /\ why' = WrongCall(c, ThisScan.ev[str])
               /\ gd' = [gd EXCEPT ![t[1]] = Append(@, c.r)]
               /\ sc' = [sc EXCEPT ![t[3]] = Append(@, c.r)]
               /\ pend' = pend \ {c.r + 1} /\ k' = k + 1
  /\ UNCHANGED <<l, j, str, exd, cfg>>

(* All strings are done: what the rules emitted is what is reported; a rule is told about every      *)
(* candidate of its own that was dropped because it was also found at an excluded place.             *)
Result ==
  LET ev == ThisScan.ev
      oc == Outcome(cfg, ev)
      ex == UNION {Remembered(cfg, ev[i].s, ev[i].p) : i \in 1..Len(ev)}
      gone == Dropped(cfg, ex, ev) IN
  IF k <= Len(Rec.calls) THEN "a rule was asked once more"
  ELSE IF \E r \in Probes(In(l)) :
            Times(r - 1, Rec.excluded) # Times(r, gone)
       THEN "rules told about dropped matches"
  ELSE IF Rec.leaves # oc.leaves THEN "final text"
  ELSE IF Rec.matches # oc.out THEN "reported matches"
  ELSE ""

EndScan1 ==
  /\ j > 0 /\ why = "" /\ pend = {} /\ str = Len(ThisScan.ev)
  /\ LET w == Result IN
     IF w # "" \/ j = Len(In(l).scans) THEN Next1(w)
     ELSE /\ j' = j + 1 /\ k' = 1 /\ str' = 0 /\ exd' = {} /\ pend' = {} /\ gd' = Fresh /\ sc' = Fresh
          /\ cfg' = Config(Scan1(In(l), In(l).scans[j + 1]), In(l), Compiled(In(l)), "leftmost")
          /\ UNCHANGED <<l, why>>

Halt == j > 0 /\ why # "" /\ Next1(why)

Rest == UNCHANGED <<leaves, nxt, found, excl, phase, out>>
Init == /\ l = 1 /\ j = 0 /\ k = 1 /\ str = 0 /\ exd = {} /\ pend = {} /\ gd = Fresh /\ sc = Fresh /\ why = ""
        /\ cfg = <<>> /\ leaves = <<>> /\ nxt = 1 /\ found = <<>> /\ excl = {} /\ phase = "idle" /\ out = <<>>
Next == (Begin \/ NextString \/ Ask \/ EndScan1 \/ Halt) /\ Rest
=================================================================================
