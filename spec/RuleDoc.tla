-------------------------------- MODULE RuleDoc --------------------------------
(***************************************************************************)
(* Rule configurations as JSON documents, the form in which the bindings and  *)
(* stored configurations hand rules over. A document is a tree (Tree). The     *)
(* reading of a document is a rule of Detect, or an error.                    *)
(***************************************************************************)
EXTENDS Tree

Names == [ ChineseIdChecksum |-> <<67, 104, 105, 110, 101, 115, 101, 73, 100, 67, 104, 101, 99, 107, 115, 117, 109>>,
           Exclude |-> <<69, 120, 99, 108, 117, 100, 101>>,
           Field |-> <<70, 105, 101, 108, 100>>,
           FirstCharacters |-> <<70, 105, 114, 115, 116, 67, 104, 97, 114, 97, 99, 116, 101, 114, 115>>,
           GithubTokenChecksum |-> <<71, 105, 116, 104, 117, 98, 84, 111, 107, 101, 110, 67, 104, 101, 99, 107, 115, 117, 109>>,
           Hash |-> <<72, 97, 115, 104>>,
           IbanChecker |-> <<73, 98, 97, 110, 67, 104, 101, 99, 107, 101, 114>>,
           Include |-> <<73, 110, 99, 108, 117, 100, 101>>,
           Index |-> <<73, 110, 100, 101, 120>>,
           JwtExpirationChecker |-> <<74, 119, 116, 69, 120, 112, 105, 114, 97, 116, 105, 111, 110, 67, 104, 101, 99, 107, 101, 114>>,
           LastCharacters |-> <<76, 97, 115, 116, 67, 104, 97, 114, 97, 99, 116, 101, 114, 115>>,
           LuhnChecksum |-> <<76, 117, 104, 110, 67, 104, 101, 99, 107, 115, 117, 109>>,
           NhsCheckDigit |-> <<78, 104, 115, 67, 104, 101, 99, 107, 68, 105, 103, 105, 116>>,
           NirChecksum |-> <<78, 105, 114, 67, 104, 101, 99, 107, 115, 117, 109>>,
           None |-> <<78, 111, 110, 101>>,
           PartialRedact |-> <<80, 97, 114, 116, 105, 97, 108, 82, 101, 100, 97, 99, 116>>,
           Redact |-> <<82, 101, 100, 97, 99, 116>>,
           Utf16Hash |-> <<85, 116, 102, 49, 54, 72, 97, 115, 104>>,
           character_count |-> <<99, 104, 97, 114, 97, 99, 116, 101, 114, 95, 99, 111, 117, 110, 116>>,
           direction |-> <<100, 105, 114, 101, 99, 116, 105, 111, 110>>,
           exclude |-> <<101, 120, 99, 108, 117, 100, 101>>,
           excluded_keywords |-> <<101, 120, 99, 108, 117, 100, 101, 100, 95, 107, 101, 121, 119, 111, 114, 100, 115>>,
           include |-> <<105, 110, 99, 108, 117, 100, 101>>,
           included_keywords |-> <<105, 110, 99, 108, 117, 100, 101, 100, 95, 107, 101, 121, 119, 111, 114, 100, 115>>,
           labels |-> <<108, 97, 98, 101, 108, 115>>,
           look_ahead_character_count |-> <<108, 111, 111, 107, 95, 97, 104, 101, 97, 100, 95, 99, 104, 97, 114, 97, 99, 116, 101, 114, 95, 99, 111, 117, 110, 116>>,
           match_action |-> <<109, 97, 116, 99, 104, 95, 97, 99, 116, 105, 111, 110>>,
           paths |-> <<112, 97, 116, 104, 115>>,
           pattern |-> <<112, 97, 116, 116, 101, 114, 110>>,
           proximity_keywords |-> <<112, 114, 111, 120, 105, 109, 105, 116, 121, 95, 107, 101, 121, 119, 111, 114, 100, 115>>,
           replacement |-> <<114, 101, 112, 108, 97, 99, 101, 109, 101, 110, 116>>,
           scope |-> <<115, 99, 111, 112, 101>>,
           segments |-> <<115, 101, 103, 109, 101, 110, 116, 115>>,
           type |-> <<116, 121, 112, 101>>,
           validator |-> <<118, 97, 108, 105, 100, 97, 116, 111, 114>>,
           value |-> <<118, 97, 108, 117, 101>>,
           Aws |-> <<65, 119, 115>>,
           AwsId |-> <<65, 119, 115, 73, 100>>,
           AwsSecret |-> <<65, 119, 115, 83, 101, 99, 114, 101, 116>>,
           AwsSession |-> <<65, 119, 115, 83, 101, 115, 115, 105, 111, 110>>,
           CustomHttp |-> <<67, 117, 115, 116, 111, 109, 72, 116, 116, 112>>,
           Get |-> <<71, 101, 116>>,
           Post |-> <<80, 111, 115, 116>>,
           Put |-> <<80, 117, 116>>,
           Delete |-> <<68, 101, 108, 101, 116, 101>>,
           Patch |-> <<80, 97, 116, 99, 104>>,
           aws_sts_endpoint |-> <<97, 119, 115, 95, 115, 116, 115, 95, 101, 110, 100, 112, 111, 105, 110, 116>>,
           forced_datetime_utc |-> <<102, 111, 114, 99, 101, 100, 95, 100, 97, 116, 101, 116, 105, 109, 101, 95, 117, 116, 99>>,
           timeout |-> <<116, 105, 109, 101, 111, 117, 116>>,
           secs |-> <<115, 101, 99, 115>>,
           nanos |-> <<110, 97, 110, 111, 115>>,
           endpoints |-> <<101, 110, 100, 112, 111, 105, 110, 116, 115>>,
           method |-> <<109, 101, 116, 104, 111, 100>>,
           request_header |-> <<114, 101, 113, 117, 101, 115, 116, 95, 104, 101, 97, 100, 101, 114>>,
           valid_http_status_code |-> <<118, 97, 108, 105, 100, 95, 104, 116, 116, 112, 95, 115, 116, 97, 116, 117, 115, 95, 99, 111, 100, 101>>,
           invalid_http_status_code |-> <<105, 110, 118, 97, 108, 105, 100, 95, 104, 116, 116, 112, 95, 115, 116, 97, 116, 117, 115, 95, 99, 111, 100, 101>>,
           options |-> <<111, 112, 116, 105, 111, 110, 115>>,
           start |-> <<115, 116, 97, 114, 116>>,
           end |-> <<101, 110, 100>>,
           key |-> <<107, 101, 121>>,
           match_validation_type |-> <<109, 97, 116, 99, 104, 95, 118, 97, 108, 105, 100, 97, 116, 105, 111, 110, 95, 116, 121, 112, 101>> ]

None == <<>>                                   \* optional values: <<>> or <<x>>
Bad == [ok |-> FALSE]
Good(x) == [ok |-> TRUE, v |-> x]

HasKey(d, k) == \E j \in 1..Len(d.m) : d.m[j].k = k
Key(d, k) == d.m[CHOOSE j \in 1..Len(d.m) : d.m[j].k = k].v
(* the value of an optional part: absent and null are the same *)
Given(d, k) == HasKey(d, k) /\ Key(d, k).t # "z"
IsMap(d) == d.t = "m"
IsStr(d) == d.t = "s"

RECURSIVE NatOf(_, _)
NatOf(s, n) == IF s = <<>> THEN n ELSE NatOf(Tail(s), n * 10 + (Head(s) - 48))
IsNat(d) == d.t = "n" /\ d.s # <<>> /\ \A j \in 1..Len(d.s) : IsDigit(d.s[j])
NatV(d) == NatOf(d.s, 0)

(* all elements of a list satisfy Ok; then V of each *)
IsStrings(d) == d.t = "l" /\ \A j \in 1..Len(d.l) : IsStr(d.l[j])
Strings(d) == [j \in 1..Len(d.l) |-> d.l[j].s]

IsTagged(d) == IsMap(d) /\ HasKey(d, Names.type) /\ IsStr(Key(d, Names.type))
Tag(d) == Key(d, Names.type).s

Action(d) ==
  IF ~IsTagged(d) THEN Bad
  ELSE CASE Tag(d) = Names.None -> Good([t |-> "none"])
         [] Tag(d) = Names.Hash -> Good([t |-> "hash"])
         [] Tag(d) = Names.Utf16Hash -> Good([t |-> "hash16"])
         [] Tag(d) = Names.Redact ->
              IF HasKey(d, Names.replacement) /\ IsStr(Key(d, Names.replacement))
              THEN Good([t |-> "redact", r |-> Key(d, Names.replacement).s]) ELSE Bad
         [] Tag(d) = Names.PartialRedact ->
              IF ~(HasKey(d, Names.direction) /\ HasKey(d, Names.character_count)) THEN Bad
              ELSE LET x == Key(d, Names.direction) n == Key(d, Names.character_count) IN
                   IF ~IsNat(n) \/ ~IsStr(x) THEN Bad
                   ELSE IF x.s = Names.FirstCharacters THEN Good([t |-> "first", n |-> NatV(n)])
                   ELSE IF x.s = Names.LastCharacters THEN Good([t |-> "last", n |-> NatV(n)])
                   ELSE Bad
         [] OTHER -> Bad

(* paths *)
IsSeg(d) == /\ IsTagged(d) /\ HasKey(d, Names.value)
            /\ \/ Tag(d) = Names.Field /\ IsStr(Key(d, Names.value))
               \/ Tag(d) = Names.Index /\ IsNat(Key(d, Names.value))
SegV(d) == IF Tag(d) = Names.Field THEN <<"f", Key(d, Names.value).s>> ELSE <<"i", <<NatV(Key(d, Names.value))>> >>
IsPath(d) == /\ IsMap(d) /\ HasKey(d, Names.segments) /\ Key(d, Names.segments).t = "l"
             /\ \A j \in 1..Len(Key(d, Names.segments).l) : IsSeg(Key(d, Names.segments).l[j])
PathV(d) == LET l == Key(d, Names.segments).l IN [j \in 1..Len(l) |-> SegV(l[j])]
IsPaths(d) == d.t = "l" /\ \A j \in 1..Len(d.l) : IsPath(d.l[j])
PathsV(d) == [j \in 1..Len(d.l) |-> PathV(d.l[j])]

ScopeV(d) ==
  IF ~IsTagged(d) \/ ~HasKey(d, Names.paths) THEN Bad
  ELSE LET p == Key(d, Names.paths) IN
       CASE Tag(d) = Names.Exclude -> IF IsPaths(p) THEN Good([t |-> "exc", exc |-> PathsV(p)]) ELSE Bad
         [] Tag(d) = Names.Include ->
              IF IsMap(p) /\ HasKey(p, Names.include) /\ HasKey(p, Names.exclude) /\ IsPaths(Key(p, Names.include)) /\ IsPaths(Key(p, Names.exclude))
              THEN Good([t |-> "inc", inc |-> PathsV(Key(p, Names.include)), exc |-> PathsV(Key(p, Names.exclude))]) ELSE Bad
         [] OTHER -> Bad

ListOr0(d, k) == IF Given(d, k) THEN (IF IsStrings(Key(d, k)) THEN Good(Strings(Key(d, k))) ELSE Bad) ELSE Good(<<>>)
KwV(d) ==
  IF ~IsMap(d) \/ ~HasKey(d, Names.look_ahead_character_count) \/ ~IsNat(Key(d, Names.look_ahead_character_count)) THEN Bad
  ELSE LET i == ListOr0(d, Names.included_keywords) e == ListOr0(d, Names.excluded_keywords) IN
       IF i.ok /\ e.ok THEN Good([la |-> NatV(Key(d, Names.look_ahead_character_count)), inc |-> i.v, exc |-> e.v]) ELSE Bad

ValidatorV(d) ==
  IF ~IsTagged(d) THEN Bad
  ELSE CASE Tag(d) = Names.LuhnChecksum -> Good("luhn")
         [] Tag(d) = Names.ChineseIdChecksum -> Good("chinese")
         [] Tag(d) = Names.GithubTokenChecksum -> Good("github")
         [] Tag(d) = Names.NhsCheckDigit -> Good("nhs")
         [] Tag(d) = Names.IbanChecker -> Good("iban")
         [] Tag(d) = Names.NirChecksum -> Good("nir")
         [] Tag(d) = Names.JwtExpirationChecker -> Good("jwt")
         [] OTHER -> Bad

LabelsV(d) == IF d.t = "l" /\ \A j \in 1..Len(d.l) : IsStrings(d.l[j]) /\ Len(d.l[j].l) = 2
              THEN Good([j \in 1..Len(d.l) |-> Strings(d.l[j])]) ELSE Bad

(* match validation *)
HasStr(d, k) == HasKey(d, k) /\ IsStr(Key(d, k))
HasNat(d, k) == HasKey(d, k) /\ IsNat(Key(d, k))
IsDuration(d) == IsMap(d) /\ HasNat(d, Names.secs) /\ HasNat(d, Names.nanos)
DurationV(d) == <<NatV(Key(d, Names.secs)), NatV(Key(d, Names.nanos))>>
IsRange(d) == IsMap(d) /\ HasNat(d, Names.start) /\ HasNat(d, Names.end) /\ NatV(Key(d, Names.start)) < 65536 /\ NatV(Key(d, Names.end)) < 65536
RangeV(d) == <<NatV(Key(d, Names.start)), NatV(Key(d, Names.end))>>
IsHeader(d) == IsMap(d) /\ HasStr(d, Names.key) /\ HasStr(d, Names.value)
HeaderV(d) == <<Key(d, Names.key).s, Key(d, Names.value).s>>
HasDuration(d) == HasKey(d, Names.timeout) /\ IsDuration(Key(d, Names.timeout))
Methods == {Names.Get, Names.Post, Names.Put, Names.Delete, Names.Patch}
AwsSecretV(d) ==
  IF ~(IsMap(d) /\ HasStr(d, Names.aws_sts_endpoint) /\ HasDuration(d)) THEN Bad
  ELSE IF Given(d, Names.forced_datetime_utc) /\ ~IsStr(Key(d, Names.forced_datetime_utc)) THEN Bad
  ELSE Good([k |-> "secret", at |-> Key(d, Names.aws_sts_endpoint).s, timeout |-> DurationV(Key(d, Names.timeout)),
             date |-> IF Given(d, Names.forced_datetime_utc) THEN <<Key(d, Names.forced_datetime_utc).s>> ELSE None])
AllOf(d, kind) == d.t = "l" /\ \A j \in 1..Len(d.l) : IF kind = "range" THEN IsRange(d.l[j]) ELSE IsHeader(d.l[j])
HttpV(d) ==
  IF ~IsMap(d) THEN Bad
  ELSE IF ~(/\ HasKey(d, Names.endpoints) /\ IsStrings(Key(d, Names.endpoints))
            /\ HasStr(d, Names.method) /\ Key(d, Names.method).s \in Methods
            /\ HasKey(d, Names.request_header) /\ AllOf(Key(d, Names.request_header), "header")
            /\ HasKey(d, Names.valid_http_status_code) /\ AllOf(Key(d, Names.valid_http_status_code), "range")
            /\ HasKey(d, Names.invalid_http_status_code) /\ AllOf(Key(d, Names.invalid_http_status_code), "range")
            /\ HasKey(d, Names.options) /\ IsMap(Key(d, Names.options)) /\ HasDuration(Key(d, Names.options))) THEN Bad
  ELSE LET R(k) == LET l == Key(d, k).l IN [j \in 1..Len(l) |-> RangeV(l[j])]
           hs == Key(d, Names.request_header).l IN
       Good([k |-> "http", eps |-> Strings(Key(d, Names.endpoints)), method |-> Key(d, Names.method).s,
             headers |-> [j \in 1..Len(hs) |-> HeaderV(hs[j])], valid |-> R(Names.valid_http_status_code),
             invalid |-> R(Names.invalid_http_status_code), timeout |-> DurationV(Key(Key(d, Names.options), Names.timeout))])
MvV(d) ==
  IF ~IsMap(d) \/ Len(d.m) # 1 THEN Bad
  ELSE LET k == d.m[1].k v == d.m[1].v IN
       IF k = Names.CustomHttp THEN HttpV(v)
       ELSE IF k # Names.Aws THEN Bad
       ELSE IF IsStr(v) THEN (IF v.s = Names.AwsId THEN Good([k |-> "id"]) ELSE IF v.s = Names.AwsSession THEN Good([k |-> "session"]) ELSE Bad)
       ELSE IF IsMap(v) /\ Len(v.m) = 1 /\ v.m[1].k = Names.AwsSecret THEN AwsSecretV(v.m[1].v)
       ELSE Bad

(* A rule document. labels and mv (match validation) are part of the reading.   *)
RuleOf(d) ==
  IF ~IsMap(d) \/ ~HasKey(d, Names.pattern) \/ ~HasKey(d, Names.match_action) THEN Bad
  ELSE IF ~IsStr(Key(d, Names.pattern)) THEN Bad
  ELSE LET a == Action(Key(d, Names.match_action))
           s == IF HasKey(d, Names.scope) THEN ScopeV(Key(d, Names.scope)) ELSE Good([t |-> "exc", exc |-> <<>>])
           k == IF Given(d, Names.proximity_keywords) THEN KwV(Key(d, Names.proximity_keywords)) ELSE Good(None)
           v == IF Given(d, Names.validator) THEN ValidatorV(Key(d, Names.validator)) ELSE Good("")
           l == IF Given(d, Names.labels) THEN LabelsV(Key(d, Names.labels)) ELSE Good(<<>>)
           mv == IF Given(d, Names.match_validation_type) THEN MvV(Key(d, Names.match_validation_type)) ELSE Good([k |-> "none"]) IN
       IF ~(a.ok /\ s.ok /\ k.ok /\ v.ok /\ l.ok /\ mv.ok) THEN Bad
       ELSE Good(LET r == [k |-> "regex", pat |-> Key(d, Names.pattern).s, act |-> a.v, scope |-> s.v, val |-> v.v, labels |-> l.v]
                     more == (IF k.v = None THEN {} ELSE {"kw"}) \cup (IF mv.v.k = "none" THEN {} ELSE {"mv"}) IN
                 [x \in DOMAIN r \cup more |-> CASE x = "kw" -> k.v [] x = "mv" -> mv.v [] OTHER -> r[x]])
=================================================================================
