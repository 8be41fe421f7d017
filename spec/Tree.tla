---------------------------------- MODULE Tree ----------------------------------
(***************************************************************************)
(* Events as trees, and the strings a scan sees in them.                     *)
(*   [t |-> "s", s |-> text]      a string                                   *)
(*   [t |-> "n", s |-> text]      a JSON number or boolean: seen as its text  *)
(*   [t |-> "z"]                  JSON null: not seen                        *)
(*   [t |-> "l", l |-> nodes]     a list                                     *)
(*   [t |-> "m", m |-> <<[k |-> key, v |-> node], ...>>]   a map              *)
(***************************************************************************)
EXTENDS Text

RECURSIVE Lex(_, _)
Lex(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
             ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Lex(Tail(a), Tail(b))

RECURSIVE SortMap(_)
SortMap(m) ==
  IF m = <<>> THEN <<>>
  ELSE LET j == CHOOSE j \in 1..Len(m) : \A i \in 1..Len(m) : i = j \/ Lex(m[j].k, m[i].k) IN
       <<m[j]>> \o SortMap(SubSeq(m, 1, j - 1) \o SubSeq(m, j + 1, Len(m)))

MessageKey == <<109, 101, 115, 115, 97, 103, 101>>      \* "message"

(* The order in which the entries of a map are visited. SimpleEvent promises "message" first, then    *)
(* the order of the keys; the others promise nothing, and their reports are compared string by string.  *)
Entries(kind, m) ==
  LET s == SortMap(m) IN
  IF kind = "simple"
  THEN SelectSeq(s, LAMBDA e : e.k = MessageKey) \o SelectSeq(s, LAMBDA e : e.k # MessageKey)
  ELSE s

RECURSIVE Leaves(_, _, _)
Leaves(kind, n, P) ==
  CASE n.t \in {"s", "n"} -> << [p |-> P, s |-> n.s] >>
    [] n.t = "z" -> <<>>
    [] n.t = "l" -> Flatten([j \in 1..Len(n.l) |-> Leaves(kind, n.l[j], Append(P, <<"i", <<j - 1>> >>))])
    [] n.t = "m" -> LET e == Entries(kind, n.m) IN
                    Flatten([j \in 1..Len(e) |-> Leaves(kind, e[j].v, Append(P, <<"f", e[j].k>>))])

(* The tree after the scan: T[P] is the new text of the string at P, M[P] whether a rule with a        *)
(* changing action applied there. A number or boolean stays what it is unless its text changes.        *)
RECURSIVE Becomes(_, _, _, _, _)
Becomes(n, o, P, T, M) ==
  CASE n.t = "s" -> o.t = "s" /\ o.s = T[P]
    [] n.t = "n" -> IF T[P] # n.s THEN o.t = "s" /\ o.s = T[P] ELSE o = n \/ (M[P] /\ o.t = "s" /\ o.s = n.s)
    [] n.t = "z" -> o.t = "z"
    [] n.t = "l" -> /\ o.t = "l" /\ Len(o.l) = Len(n.l)
                    /\ \A j \in 1..Len(n.l) : Becomes(n.l[j], o.l[j], Append(P, <<"i", <<j - 1>> >>), T, M)
    [] n.t = "m" -> /\ o.t = "m" /\ Len(o.m) = Len(n.m)
                    /\ LET a == SortMap(n.m)
                           b == SortMap(o.m) IN
                       \A j \in 1..Len(a) : a[j].k = b[j].k /\ Becomes(a[j].v, b[j].v, Append(P, <<"f", a[j].k>>), T, M)
=================================================================================
