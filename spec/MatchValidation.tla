------------------------------ MODULE MatchValidation ------------------------------
(***************************************************************************)
(* Active validation of reported matches. Every match of a rule with an      *)
(* HTTP validator is tried at each of its endpoints; AWS ids and secrets are  *)
(* tried in all pairs. The checks may be performed in any order; a match      *)
(* keeps the strongest answer.                                               *)
(*                                                                         *)
(* rule.mv: [t |-> "http", eps, method, headers, valid, invalid, dead],      *)
(*          [t |-> "aws_id"], [t |-> "aws_session"],                          *)
(*          [t |-> "aws_secret", ep, dead]                                   *)
(***************************************************************************)
EXTENDS Text

VARIABLES todo,      \* indices of the checks not performed yet
          stat       \* status of each match: [s |-> name, codes |-> error codes seen]

Rank(s) == CASE s = "NotChecked" -> 0 [] s = "NotAvailable" -> 1 [] s = "Invalid" -> 2 [] s = "Error" -> 3 [] s = "Valid" -> 4
Better(a, b) == IF Rank(a) > Rank(b) THEN a ELSE b

HasMv(r) == "mv" \in DOMAIN r
IsHttp(r) == HasMv(r) /\ r.mv.t = "http"
IsAws(r, t) == HasMv(r) /\ r.mv.t = t
CanValidate(rules) == \E j \in 1..Len(rules) : IsHttp(rules[j]) \/ IsAws(rules[j], "aws_secret")

Endpoints(mv) == IF mv.hosts = <<>> THEN <<mv.ep>> ELSE [j \in 1..Len(mv.hosts) |-> mv.hosts[j] \o mv.ep]
(* Rules with the same endpoints share the validator of the first of them. *)
HttpConf(rules, r) ==
  LET same == {j \in 1..Len(rules) : IsHttp(rules[j]) /\ Endpoints(rules[j].mv) = Endpoints(rules[r].mv)
                                       /\ rules[j].mv.dead = rules[r].mv.dead}
  IN rules[CHOOSE j \in same : \A i \in same : j <= i].mv
AwsConf(rules) ==
  LET s == {j \in 1..Len(rules) : IsAws(rules[j], "aws_secret")}
  IN rules[CHOOSE j \in s : \A i \in s : j <= i].mv

(* "$MATCH" in a header value stands for the matched text *)
Dollar == <<36, 77, 65, 84, 67, 72>>
RECURSIVE Subst(_, _)
Subst(v, m) == IF v = <<>> THEN <<>>
               ELSE IF Len(v) >= 6 /\ SubSeq(v, 1, 6) = Dollar THEN m \o Subst(SubSeq(v, 7, Len(v)), m)
               ELSE <<Head(v)>> \o Subst(Tail(v), m)

(* Header values cannot hold control characters. *)
Sendable(v) == \A j \in 1..Len(v) : (v[j] >= 32 /\ v[j] # 127) \/ v[j] = 9

(* The secret is the first run of 40 base-64 characters that ends at a word boundary. *)
SecretChar(c) == IsAlnum(c) \/ c \in {47, 43}
RustWord(c) == IsWord(c) \/ c = 233 \/ c = 20013              \* among the characters the drivers use
Edge(v, i) == (i >= 1 /\ RustWord(v[i])) # (i < Len(v) /\ RustWord(v[i + 1]))
Secret(v) ==
  LET at == {i \in 0..(Len(v) - 40) : (\A j \in (i + 1)..(i + 40) : SecretChar(v[j])) /\ Edge(v, i + 40)} IN
  IF at = {} THEN <<>> ELSE LET i == CHOOSE i \in at : \A j \in at : i <= j IN SubSeq(v, i + 1, i + 40)

(* The checks for a list of matches. ms: the matches a check decides; go: the request can be made. *)
HttpChecks(rules, m, j) ==
  LET c == HttpConf(rules, m[j].rule + 1)
      vals == [h \in 1..Len(c.headers) |-> <<c.headers[h][1], Subst(c.headers[h][2], m[j].val[1])>>]
      go == ~c.dead /\ \A h \in 1..Len(vals) : Sendable(vals[h][2])
      eps == Dedup(Endpoints(c)) IN
  [e \in 1..Len(eps) |-> [ms |-> <<j>>, go |-> go, req |-> [method |-> c.method, path |-> eps[e], aws |-> FALSE, vals |-> vals],
                          valid |-> c.valid, invalid |-> c.invalid]]
AwsChecks(rules, m) ==
  IF ~\E j \in 1..Len(rules) : IsAws(rules[j], "aws_secret") THEN <<>>
  ELSE LET c == AwsConf(rules)
           ids == SelectSeq([j \in 1..Len(m) |-> j], LAMBDA j : IsAws(rules[m[j].rule + 1], "aws_id"))
           secs == SelectSeq([j \in 1..Len(m) |-> j], LAMBDA j : IsAws(rules[m[j].rule + 1], "aws_secret"))
           one(i, s) == [ms |-> <<i, s>>, go |-> ~c.dead /\ Sendable(m[i].val[1]),
                         req |-> [method |-> "POST", path |-> c.ep, aws |-> TRUE, vals |-> << <<m[i].val[1], Secret(m[s].val[1])>> >>],
                         valid |-> << <<200, 300>> >>, invalid |-> << <<400, 500>> >>]
       IN Flatten([a \in 1..Len(ids) |-> [b \in 1..Len(secs) |-> one(ids[a], secs[b])]])
Checks(rules, m) ==
  AwsChecks(rules, m) \o
  Flatten([j \in 1..Len(m) |-> IF IsHttp(rules[m[j].rule + 1]) THEN HttpChecks(rules, m, j) ELSE <<>>])

In2(rs, c) == \E k \in 1..Len(rs) : rs[k][1] <= c /\ c < rs[k][2]
(* code 0: no answer *)
Verdict(ck, code) ==
  IF code = 0 THEN "Error"
  ELSE IF In2(ck.valid, code) THEN "Valid"
  ELSE IF In2(ck.invalid, code) THEN "Invalid"
  ELSE IF ck.req.aws /\ code < 500 THEN "NotChecked"        \* a redirect says nothing about the key
  ELSE IF ck.req.aws /\ code >= 600 THEN "NotChecked"
  ELSE "Error"

StartChecks(cks, m) ==
  /\ todo = 1..Len(cks)
  /\ stat = [j \in 1..Len(m) |-> [s |-> m[j].status, codes |-> {}]]

Merge(st, v, code) ==
  [s |-> Better(st.s, v), codes |-> IF v = "Error" THEN st.codes \cup {code} ELSE st.codes]

(* Check number n is performed and answered with code. *)
Perform(cks, n, code) ==
  /\ n \in todo
  /\ todo' = todo \ {n}
  /\ stat' = [j \in DOMAIN stat |-> IF j \in ValuesOf(cks[n].ms) THEN Merge(stat[j], Verdict(cks[n], code), code) ELSE stat[j]]
====================================================================================
