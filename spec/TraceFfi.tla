-------------------------------- MODULE TraceFfi --------------------------------
(***************************************************************************)
(* Judges "ffi" records: a history of calls of the C interface. Handles of     *)
(* rules, rule lists and scanners are created, combined and released in any    *)
(* order a correct client may use:                                            *)
(*   a list keeps what was appended to it, whatever happens to the rule handle; *)
(*   a scanner keeps the rules its list had when it was created.              *)
(***************************************************************************)
EXTENDS WireScan, RuleDoc

VARIABLES l, k,
          hrules,    \* handle -> rule
          hlists,    \* handle -> sequence of rules
          hscan      \* handle -> [rules, kwpath]

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

Code(err) ==                        \* of create_scanner, by kind of error
  CASE err = "ok" -> 1
    [] err = "InvalidMatchAction" -> -4
    [] err \in {"InvalidKeywords:" \o x : x \in {"EmptyKeyword", "TooManyKeywords", "KeywordTooLong", "InvalidLookAheadCharacterCount"}} -> -3
    [] OTHER -> -2

AsCase(rules, kwpath) == [rules |-> rules, opts |-> [kwpath |-> kwpath]]

ScanRight(sc, b, o, mode) == BytesRight(AsCase(sc.rules, sc.kwpath), b, o, mode)

(* Does the client hold the handles the step names? If not, it leaves it out.  *)
Held(s) ==
  CASE s.do \in {"rule", "list"} -> TRUE
    [] s.do = "append" -> s.rule \in DOMAIN hrules /\ s.list \in DOMAIN hlists
    [] s.do = "free_rule" -> s.h \in DOMAIN hrules
    [] s.do = "free_list" -> s.h \in DOMAIN hlists
    [] s.do = "scanner" -> s.list \in DOMAIN hlists
    [] OTHER -> s.h \in DOMAIN hscan

Verdict(s, o) ==
  IF Abnormal(o) # "" THEN Abnormal(o)
  ELSE IF ~Held(s) \/ "skip" \in DOMAIN o THEN IF ~Held(s) /\ "skip" \in DOMAIN o THEN "" ELSE "handles got by the client"
  ELSE CASE s.do = "rule" -> IF o.ok = RuleOf(s.doc).ok THEN "" ELSE "creating a rule from a document: wrong outcome"
         [] s.do = "scanner" ->
              (LET in == AsCase(hlists[s.list], FALSE) be == BuildErr(in, Compiled(in)) IN
               IF o.code = Code(be) /\ ~o.err THEN "" ELSE "creating a scanner: wrong outcome")
         [] s.do = "scan" ->
              (LET sc == hscan[s.h] w == ScanRight(sc, s.bytes, o, "leftmost") IN
               IF w # "" /\ Ambiguous(AsCase(sc.rules, FALSE)) THEN ScanRight(sc, s.bytes, o, "earliest") ELSE w)
         [] OTHER -> ""

Reset == /\ hrules' = <<>> /\ hlists' = <<>> /\ hscan' = <<>> /\ k' = 1
Next1(why) == /\ Report(Cases[l].id, why) /\ Consumed(l) /\ l' = l + 1 /\ Reset /\ UNCHANGED vars

Do(s, o) ==
  /\ hrules' = CASE s.do = "rule" /\ o.ok -> Put(hrules, s.h, RuleOf(s.doc).v)
                 [] s.do = "free_rule" -> Del(hrules, s.h)
                 [] OTHER -> hrules
  /\ hlists' = CASE s.do = "list" -> Put(hlists, s.h, <<>>)
                 [] s.do = "append" -> Put(hlists, s.list, Append(hlists[s.list], hrules[s.rule]))
                 [] s.do = "free_list" -> Del(hlists, s.h)
                 [] OTHER -> hlists
  /\ hscan' = CASE s.do = "scanner" /\ o.code > 0 -> Put(hscan, s.h, [rules |-> hlists[s.list], kwpath |-> s.kwpath])
                [] s.do = "delete" -> Del(hscan, s.h)
                [] OTHER -> hscan

Next ==
  /\ l <= Len(Cases)
  /\ IF Abnormal(Out(l)) # "" THEN Next1(Abnormal(Out(l)))
     ELSE IF k > Len(In(l).steps)
     THEN Next1(IF Out(l).live # 0 THEN "scanners are still alive after their handles were released"
                ELSE IF Out(l).grow > Out(l).slack THEN "memory is not released" ELSE "")
     ELSE LET s == In(l).steps[k]
              o == Out(l).outs[k]
              w == Verdict(s, o) IN
          IF w # "" THEN Next1(w)
          ELSE IF ~Held(s) THEN k' = k + 1 /\ UNCHANGED <<l, hrules, hlists, hscan>> /\ UNCHANGED vars
          ELSE Do(s, o) /\ k' = k + 1 /\ l' = l /\ UNCHANGED vars

Init == /\ l = 1 /\ k = 1 /\ hrules = <<>> /\ hlists = <<>> /\ hscan = <<>>
        /\ cfg = <<>> /\ leaves = <<>> /\ nxt = 1 /\ found = <<>> /\ excl = {} /\ phase = "idle" /\ out = <<>>
=================================================================================
