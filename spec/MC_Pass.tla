--------------------------------- MODULE MC_Pass ---------------------------------
(***************************************************************************)
(* Closed model of multi-pass exclusion: two rules, three strings, every      *)
(* combination of scopes, texts and visiting order. The actions are those of  *)
(* SdsScan; every initial state is printed to be replayed in the code.        *)
(***************************************************************************)
EXTENDS SdsScan, TLC, Json

CONSTANTS Len0, Orders

VARIABLE ev0      \* the event as it was

PX == <<"f", <<120>>>>
PY == <<"f", <<121>>>>
P0 == <<"i", <<0>>>>
Places == << <<PX>>, <<PY>>, <<PX, P0>> >>
Scopes == { [t |-> "all"], [t |-> "exc", exc |-> << <<PX>> >>], [t |-> "exc", exc |-> << <<PX, P0>> >>],
            [t |-> "inc", inc |-> << <<PX>> >>, exc |-> << <<PX, P0>> >>], [t |-> "inc", inc |-> << <<PY>> >>, exc |-> <<>>],
            [t |-> "inc", inc |-> << <<>> >>, exc |-> << <<PY>> >>] }
Pats == << <<97, 43>>, <<98>> >>                    \* a+, b
None == [t |-> "none"]
Star == [t |-> "redact", r |-> <<42>>]

Rule(j, s, act) == [k |-> "regex", pat |-> Pats[j], act |-> act, scope |-> s]
Comp == [j \in 1..2 |-> Compile(Pats[j]).n]
Ev(o, ts) == [i \in 1..3 |-> [p |-> Places[o[i]], s |-> ts[o[i]]]]

Texts == UNION {[1..n -> {97, 98}] : n \in 1..Len0}
OrderSet == IF Orders = 1 THEN {<<1, 2, 3>>} ELSE {<<1, 2, 3>>, <<3, 2, 1>>, <<2, 3, 1>>}

Init == \E s1, s2 \in Scopes, ts \in [1..3 -> Texts], o \in OrderSet, mp \in BOOLEAN :
  LET rs == <<Rule(1, s1, Star), Rule(2, s2, None)>> IN
  /\ StartScan([rules |-> rs, comp |-> Comp, implicit |-> FALSE, kwpath |-> FALSE, multipass |-> mp, retval |-> FALSE, blocked |-> {},
                enc |-> "utf8", tab |-> <<>>, mode |-> "leftmost"], Ev(o, ts))
  /\ ev0 = leaves
  /\ PrintT(<<"VEC", ToJson([rules |-> rs, ev |-> ev0, multipass |-> mp])>>)
Next == ScanNext /\ UNCHANGED ev0

Fin == phase = "done"

(* Stated again without the steps: rule 1 finds the longest runs of a, rule 2 every b. *)
RunOfA(s, a, b) == /\ \A k \in (a + 1)..b : s[k] = 97
                   /\ a > 0 => s[a] # 97
                   /\ b < Len(s) => s[b + 1] # 97
Spots(r, s) == IF r = 1 THEN {sp \in {<<a, b>> : a \in 0..(Len(s) - 1), b \in 1..Len(s)} : sp[1] < sp[2] /\ RunOfA(s, sp[1], sp[2])}
               ELSE {<<k - 1, k>> : k \in {k \in 1..Len(s) : s[k] = 98}}
TextsOf(r, s) == {Sub(s, sp[1], sp[2]) : sp \in Spots(r, s)}
Sees(r, p) == InScope(cfg.rules[r].scope, p, FALSE)
Shut(r, p) == Excluded(cfg.rules[r].scope, p, FALSE)
Secret == UNION {UNION {TextsOf(r, ev0[i].s) : r \in {r \in 1..2 : Sees(r, ev0[i].p) /\ Shut(r, ev0[i].p)}} : i \in 1..3}
Open(r, i) == IF ~Sees(r, ev0[i].p) \/ Shut(r, ev0[i].p) THEN {}
              ELSE {sp \in Spots(r, ev0[i].s) : ~(cfg.multipass /\ Sub(ev0[i].s, sp[1], sp[2]) \in Secret)}
Reported(r, i) == {k \in 1..Len(out) : out[k].path = ev0[i].p /\ out[k].rule = r - 1}

Exact == Fin => \A r \in 1..2, i \in 1..3 : Cardinality(Reported(r, i)) = Cardinality(Open(r, i))
RedactedExactly == Fin => \A i \in 1..3 :
    /\ Cardinality({k \in 1..Len(leaves[i].s) : leaves[i].s[k] = 42}) = Cardinality(Open(1, i))
    /\ SelectSeq(leaves[i].s, LAMBDA c : c = 98) = SelectSeq(ev0[i].s, LAMBDA c : c = 98)
(* the order of the strings does not matter *)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
OrderIrrelevant == (phase = "visit" /\ nxt = 1) =>
   LET a == Outcome(cfg, leaves)
       b == Outcome(cfg, Rev(leaves)) IN
   /\ ValuesOf(a.out) = ValuesOf(b.out)
   /\ \A i \in 1..3 : a.leaves[i] = b.leaves[4 - i]
=================================================================================
