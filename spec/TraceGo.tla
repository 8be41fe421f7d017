--------------------------------- MODULE TraceGo ---------------------------------
(***************************************************************************)
(* Judges "go" records: rules made with the constructors of the Go binding,    *)
(* strings and maps scanned with it. Maps are changed in place.               *)
(***************************************************************************)
EXTENDS ScanCase, Tree, Wire

VARIABLE l

GoErr(be) == CASE be = "ok" -> "ok"
               [] be = "InvalidMatchAction" -> "action"
               [] be \in {"InvalidKeywords:" \o x : x \in {"EmptyKeyword", "TooManyKeywords", "KeywordTooLong", "InvalidLookAheadCharacterCount"}} -> "keywords"
               [] OTHER -> "regex"

(* strings may come as raw bytes *)
KeyOf(e) == IF "kb" \in DOMAIN e THEN Chars(e.kb) ELSE e.k
Keyed(m) == SortMap([j \in 1..Len(m) |-> [k |-> KeyOf(m[j]), raw |-> IF "kb" \in DOMAIN m[j] THEN m[j].kb ELSE <<>>, v |-> m[j].v]])
RECURSIVE Decoded(_)
Decoded(n) ==
  CASE n.t = "s" -> [t |-> "s", s |-> IF "b" \in DOMAIN n THEN Chars(n.b) ELSE n.s]
    [] n.t = "l" -> [t |-> "l", l |-> [j \in 1..Len(n.l) |-> Decoded(n.l[j])]]
    [] n.t = "m" -> [t |-> "m", m |-> [j \in 1..Len(n.m) |-> [k |-> KeyOf(n.m[j]), v |-> Decoded(n.m[j].v)]]]
    [] OTHER -> n
RECURSIVE Unsupported(_)
Unsupported(n) ==
  CASE n.t \in {"n", "z"} -> TRUE
    [] n.t = "s" -> FALSE
    [] n.t = "l" -> \E j \in 1..Len(n.l) : Unsupported(n.l[j])
    [] n.t = "m" -> \E j \in 1..Len(n.m) : Unsupported(n.m[j].v)

Count(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a[i], a) = Count(a[i], b)

SameString(a, b) == b.t = "s" /\ IF "b" \in DOMAIN a /\ "b" \in DOMAIN b THEN a.b = b.b ELSE Decoded(a).s = Decoded(b).s /\ "b" \notin DOMAIN b
(* Strings without a changing match keep their bytes. *)
RECURSIVE KeptBytes(_, _, _, _)
KeptBytes(a, b, P, M) ==
  CASE a.t = "s" -> M[P] \/ SameString(a, b)
    [] a.t = "l" -> \A j \in 1..Len(a.l) : KeptBytes(a.l[j], b.l[j], Append(P, <<"i", <<j - 1>> >>), M)
    [] a.t = "m" -> LET x == Keyed(a.m) y == Keyed(b.m) IN \A j \in 1..Len(x) : x[j].raw = y[j].raw /\ KeptBytes(x[j].v, y[j].v, Append(P, <<"f", x[j].k>>), M)
RECURSIVE SameTree(_, _)
SameTree(a, b) ==
  CASE a.t = "s" -> SameString(a, b)
    [] a.t = "l" -> b.t = "l" /\ Len(a.l) = Len(b.l) /\ \A j \in 1..Len(a.l) : SameTree(a.l[j], b.l[j])
    [] a.t = "m" -> /\ b.t = "m" /\ Len(a.m) = Len(b.m)
                    /\ LET x == Keyed(a.m) y == Keyed(b.m) IN \A j \in 1..Len(x) : x[j].k = y[j].k /\ x[j].raw = y[j].raw /\ SameTree(x[j].v, y[j].v)
    [] OTHER -> a.t = b.t

ScanWrong(in, tree0, o, hash, mode) ==
  LET c == Config(in, [hash |-> hash], Compiled(in), mode)
      tree == Decoded(tree0)
      ev == Leaves("json", tree, <<>>)
      ex == UNION {Remembered(c, ev[j].s, ev[j].p) : j \in 1..Len(ev)}
      pr == [j \in 1..Len(ev) |-> Process(c, ex, ev[j], Candidates(c, 1, ev[j].s, ev[j].p))]
      places == {ev[j].p : j \in 1..Len(ev)}
      at == [P \in places |-> CHOOSE j \in 1..Len(ev) : ev[j].p = P]
      T == [P \in places |-> pr[at[P]].res.text]
      M == [P \in places |-> pr[at[P]].mutating]
      Shown(r) == [rule |-> r.rule, path |-> Show(r.path), rt |-> r.rt, start |-> r.start, end |-> r.end, shift |-> r.shift]
      reps == LET r == Flatten([j \in 1..Len(ev) |-> pr[j].res.reps]) IN [j \in 1..Len(r) |-> Shown(r[j])]
      changed == \E j \in 1..Len(ev) : pr[j].res.text # ev[j].s
      may == \E j \in 1..Len(ev) : pr[j].mutating IN
  IF Unsupported(tree0)
  THEN IF ~o.err THEN "an event with an unsupported value was not refused"
       ELSE IF ~SameTree(tree0, o.tree) THEN "a refused event was changed" ELSE ""
  ELSE IF o.err THEN "an event was refused"
  ELSE IF (changed /\ ~o.mutated) \/ (o.mutated /\ ~may) THEN "whether the event was changed"
  ELSE IF tree.t = "s"
  THEN IF o.matches # reps THEN "reported matches"
       ELSE IF o.mutated THEN (IF Chars(o.event) # pr[1].res.text THEN "returned event" ELSE "")
       ELSE IF Chars(o.event) # tree.s \/ ("b" \in DOMAIN tree0 /\ o.event # tree0.b) THEN "returned event" ELSE ""
  ELSE IF ~SameBag(o.matches, reps) THEN "reported matches"
  ELSE IF tree.t = "m" /\ Len(o.tree.m) # Len(tree.m) THEN "keys of the event after the scan"
  ELSE IF ~Becomes(tree, Decoded(o.tree), <<>>, T, M) THEN "the event after the scan"
  ELSE IF ~KeptBytes(tree0, o.tree, <<>>, M) THEN "a string without changing match was changed"
  ELSE IF o.mutated /\ ~\E j \in 1..Len(ev) : pr[j].mutating /\ Chars(o.event) = pr[j].res.text THEN "returned event"
  ELSE ""

Verdict(in, o) ==
  IF Abnormal(o) # "" THEN Abnormal(o)
  ELSE LET be == GoErr(BuildErr(in, Compiled(in))) IN
       IF o.build # be THEN "building the scanner: wrong outcome"
       ELSE IF be # "ok" THEN (IF o.nil THEN "" ELSE "a scanner although building failed")
       ELSE IF Len(o.scans) # Len(in.trees) THEN "harness: scans are missing"
       ELSE LET W(j) == LET w == ScanWrong(in, in.trees[j], o.scans[j], o.hash, "leftmost") IN
                        IF w # "" /\ Ambiguous(in) THEN ScanWrong(in, in.trees[j], o.scans[j], o.hash, "earliest") ELSE w
                bad == {j \in 1..Len(in.trees) : W(j) # ""} IN
            IF bad = {} THEN "" ELSE W(CHOOSE j \in bad : TRUE)

Next == /\ l <= Len(Cases)
        /\ Report(Cases[l].id, Verdict(In(l), Out(l))) /\ Consumed(l)
        /\ l' = l + 1 /\ UNCHANGED vars
Init == /\ l = 1 /\ cfg = <<>> /\ leaves = <<>> /\ nxt = 1 /\ found = <<>> /\ excl = {} /\ phase = "idle" /\ out = <<>>
=================================================================================
