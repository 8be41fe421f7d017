-------------------------------- MODULE TraceDoc --------------------------------
(***************************************************************************)
(* Judges "doc" records. A rule document was read (or refused), the rule was   *)
(* used for a scan and written again. Or a rule made with the builder was       *)
(* written.                                                                   *)
(***************************************************************************)
EXTENDS ScanCase, RuleDoc

VARIABLE l

NormScope(s) == IF s.t = "all" THEN [t |-> "exc", exc |-> <<>>] ELSE s
(* r says the same as the reading d of a document *)
SameRule(r, d) ==
  /\ r.pat = d.pat /\ r.act = d.act /\ NormScope(r.scope) = d.scope /\ Opt(r, "val", "") = d.val
  /\ Opt(r, "labels", <<>>) = d.labels /\ "mv" \notin DOMAIN d
  /\ ("kw" \in DOMAIN r) = ("kw" \in DOMAIN d)
  /\ "kw" \in DOMAIN r => r.kw = d.kw

CanValidate(r) == "mv" \in DOMAIN r /\ r.mv.k \in {"secret", "http"}

ScanWrong(in, o, rule, mode) ==
  LET c0 == Config(in, o.scan, Compiled(in), mode)
      c == [c0 EXCEPT !.retval = CanValidate(rule)]
      ex == Outcome(c, in.ev) IN
  IF o.scan.leaves # ex.leaves THEN "final text" ELSE IF o.scan.matches # ex.out THEN "reported matches" ELSE ""

(* The builder of HTTP validation: what was set, else the defaults; one endpoint per host. *)
HostWord == <<36, 72, 79, 83, 84>>
RECURSIVE Subst(_, _, _)
Subst(s, w, x) == IF Len(s) < Len(w) THEN s
                  ELSE IF SubSeq(s, 1, Len(w)) = w THEN x \o Subst(SubSeq(s, Len(w) + 1, Len(s)), w, x)
                  ELSE <<Head(s)>> \o Subst(Tail(s), w, x)
HttpWrong(in, o) ==
  LET named == \E i \in 0..Len(in.ep) : i + 5 <= Len(in.ep) /\ SubSeq(in.ep, i + 1, i + 5) = HostWord
      ok == named = (in.hosts # <<>>)
      which == ValuesOf(in.which)
      set == HttpV(in.set).v
      F(f, dflt) == IF f \in which THEN set[f] ELSE dflt
      w == HttpV(o.written) IN
  IF o.ok # ok THEN "hosts and endpoint do not go together: wrong outcome"
  ELSE IF ~ok THEN ""
  ELSE IF ~w.ok THEN "the written configuration is not one"
  ELSE IF w.v.eps # (IF in.hosts = <<>> THEN <<in.ep>> ELSE [j \in 1..Len(in.hosts) |-> Subst(in.ep, HostWord, in.hosts[j])]) THEN "endpoints"
  ELSE IF w.v.method # F("method", Names.Get) \/ w.v.valid # F("valid", << <<200, 300>> >>) \/ w.v.invalid # F("invalid", << <<400, 500>> >>)
          \/ w.v.timeout # F("timeout", <<3, 0>>)
          \/ w.v.headers # F("headers", << << <<65, 117, 116, 104, 111, 114, 105, 122, 97, 116, 105, 111, 110>>,
                                           <<66, 101, 97, 114, 101, 114, 32, 36, 77, 65, 84, 67, 72>> >> >>)
       THEN "parts of the configuration" ELSE ""

Verdict(in, o) ==
  IF Abnormal(o) # "" THEN Abnormal(o)
  ELSE IF in.op = "http" THEN HttpWrong(in, o)
  ELSE IF "rule" \in DOMAIN in
  THEN LET d == RuleOf(o.written) IN
       IF ~d.ok THEN "the written document is not a rule"
       ELSE IF ~SameRule(in.rule, d.v) THEN "the written document is another rule"
       ELSE IF ~o.again THEN "reading the written document gives another rule" ELSE ""
  ELSE LET d == RuleOf(in.doc) IN
       IF o.ok # d.ok THEN IF d.ok THEN "a rule document was refused" ELSE "a document was accepted that is not a rule"
       ELSE IF ~d.ok THEN ""
       ELSE LET w == RuleOf(o.written)
                sin == [rules |-> <<d.v>>, opts |-> [kwpath |-> FALSE], ev |-> in.ev, enc |-> "utf8"]
                be == BuildErr(sin, Compiled(sin)) IN
            IF ~w.ok THEN "the written document is not a rule"
            ELSE IF w.v # d.v THEN "the document written back is another rule"
            ELSE IF ~o.again THEN "reading the written document gives another rule"
            ELSE IF o.can # CanValidate(d.v) THEN "whether matches can be validated"
            ELSE IF o.scan.build # be THEN "building the scanner: wrong outcome"
            ELSE IF be # "ok" THEN ""
            ELSE LET sw == ScanWrong(sin, o, d.v, "leftmost") IN
                 IF sw # "" /\ Ambiguous(sin) THEN ScanWrong(sin, o, d.v, "earliest") ELSE sw

Next == /\ l <= Len(Cases)
        /\ Report(Cases[l].id, Verdict(In(l), Out(l))) /\ Consumed(l)
        /\ l' = l + 1 /\ UNCHANGED vars
Init == /\ l = 1 /\ cfg = <<>> /\ leaves = <<>> /\ nxt = 1 /\ found = <<>> /\ excl = {} /\ phase = "idle" /\ out = <<>>
=================================================================================
