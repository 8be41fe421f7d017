-------------------------------- MODULE ScanCase --------------------------------
(***************************************************************************)
(* From a scan case of the executor to the constants of SdsScan.             *)
(***************************************************************************)
EXTENDS SdsScan, TraceLib

In(n) == Cases[n].in
Out(n) == Cases[n].out
Opt(o, f, d) == IF f \in DOMAIN o THEN o[f] ELSE d

WithScope(r) == IF "scope" \in DOMAIN r THEN r ELSE [scope |-> [t |-> "all"]] @@ r

RuleErr(r, c) ==
  IF r.k = "script" THEN (IF "broken" \in DOMAIN r THEN "InvalidMatchAction" ELSE "ok")
  ELSE IF c.err # "ok" THEN "InvalidRegex:" \o c.err
  ELSE IF ActionError(r.act) THEN "InvalidMatchAction"
  ELSE IF "kw" \in DOMAIN r /\ KeywordsError(r.kw) # "ok" THEN "InvalidKeywords:" \o KeywordsError(r.kw)
  ELSE "ok"

Compiled(in) == [j \in 1..Len(in.rules) |->
                   IF in.rules[j].k = "script" THEN [err |-> "ok", n |-> NEmpty] ELSE Compile(in.rules[j].pat)]
\* the first rule that cannot be built decides
BuildErr(in, comp) ==
  LET es == SelectSeq([j \in 1..Len(in.rules) |-> RuleErr(in.rules[j], comp[j])], LAMBDA e : e # "ok") IN
  IF es = <<>> THEN "ok" ELSE es[1]

Config(in, o, comp, mode) ==
  [rules |-> [j \in 1..Len(in.rules) |-> WithScope(in.rules[j])],
   comp |-> [j \in 1..Len(comp) |-> comp[j].n],
   implicit |-> Opt(in.opts, "implicit", FALSE), kwpath |-> Opt(in.opts, "kwpath", FALSE),
   multipass |-> Opt(in.opts, "multipass", TRUE),
   retval |-> \E j \in 1..Len(in.rules) : /\ "mv" \in DOMAIN in.rules[j] /\ "t" \in DOMAIN in.rules[j].mv
                                            /\ in.rules[j].mv.t \in {"http", "aws_secret"},
   blocked |-> IF "blocked" \in DOMAIN in THEN ValuesOf(in.blocked) ELSE {},
   enc |-> Opt(in, "enc", "utf8"), tab |-> IF "hash" \in DOMAIN o THEN o.hash ELSE <<>>, mode |-> mode]

(* Keywords inside keywords: see NextKeyword. *)
Ambiguous(in) ==
  \E j \in 1..Len(in.rules) : in.rules[j].k = "regex" /\ HasInc(in.rules[j]) /\
    LET ks == IncKeywords(in.rules[j].kw) IN
    \E x, y \in 1..Len(ks) : x # y /\ Len(ks[x]) < Len(ks[y]) /\ \E i \in 0..Len(ks[y]) : Occurs(ks[x], ks[y], i)

(* Labels are a bag of (key, value) pairs. *)
Times(x, q) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameElements(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Times(a[i], a) = Times(a[i], b)

RECURSIVE SumOver(_)
SumOver(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumOver(Tail(q))

(* The rules of the candidates dropped in one string because they were found at an excluded place. *)
DroppedIn(c, ex, leaf) ==
  LET cand == Candidates(c, 1, leaf.s, leaf.p)
      gone == SelectSeq(cand, LAMBDA x : c.multipass /\ UsesMultipass(c.rules[x.r]) /\ Sub(leaf.s, x.a, x.b) \in ex)
  IN [k \in 1..Len(gone) |-> gone[k].r]
Dropped(c, ex, ev) == Flatten([i \in 1..Len(ev) |-> DroppedIn(c, ex, ev[i])])
=================================================================================
