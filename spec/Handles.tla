-------------------------------- MODULE Handles --------------------------------
(***************************************************************************)
(* The objects behind the handles of the C interface, with their reference    *)
(* counts. A rule handle, a list handle and a scanner handle each own one      *)
(* reference; a list owns one reference per entry, a scanner one per rule.     *)
(* Rules are shared, never copied.                                           *)
(*   Val  what the handles stand for by value (the view of the client: TraceFfi) *)
(* The properties say that sharing is never noticed and that everything is     *)
(* released exactly when nobody can reach it any more.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Docs,        \* documents of rules; "bad" is one that is not a rule, "broken" one that no scanner accepts
          MaxObj,      \* objects ever made
          MaxLen       \* longest list

VARIABLES objs,        \* id -> [kind, doc, refs, items]   (live memory)
          hs,          \* handle -> kind   (handles the client holds; a handle is the id of its object)
          val,         \* handle -> value: a document or a sequence of documents
          made         \* objects made so far

hv == <<objs, hs, val, made>>
HInit == objs = <<>> /\ hs = <<>> /\ val = <<>> /\ made = 0

HPut(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
HDel(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Ids(kind) == {h \in DOMAIN hs : hs[h] = kind}
New(kind, doc, items, v) ==
  /\ made < MaxObj /\ made' = made + 1
  /\ hs' = HPut(hs, made + 1, kind)
  /\ val' = HPut(val, made + 1, v)
  /\ LET shared == [y \in DOMAIN objs |-> [objs[y] EXCEPT !.refs = @ + Cardinality({i \in 1..Len(items) : items[i] = y})]] IN
     objs' = HPut(shared, made + 1, [kind |-> kind, doc |-> doc, refs |-> 1, items |-> items])

MakeRule(d) == d # "bad" /\ New("rule", d, <<>>, d)
RefuseRule(d) == d = "bad" /\ UNCHANGED hv
MakeList == New("list", "", <<>>, <<>>)
AppendRule(r, t) ==
  /\ r \in Ids("rule") /\ t \in Ids("list") /\ Len(objs[t].items) < MaxLen
  /\ objs' = [objs EXCEPT ![r].refs = @ + 1, ![t].items = Append(@, r)]
  /\ val' = [val EXCEPT ![t] = Append(@, val[r])]
  /\ UNCHANGED <<hs, made>>
MakeScanner(t) ==
  /\ t \in Ids("list") /\ \A i \in 1..Len(objs[t].items) : objs[objs[t].items[i]].doc # "broken"
  /\ New("scanner", "", objs[t].items, val[t])
RefuseScanner(t) ==
  /\ t \in Ids("list") /\ \E i \in 1..Len(objs[t].items) : objs[objs[t].items[i]].doc = "broken"
  /\ UNCHANGED hv

(* Releasing a handle drops its reference; an object without references goes, and drops what it holds. *)
Drop1(o, x) == IF o[x].refs = 1 THEN HDel(o, x) ELSE [o EXCEPT ![x].refs = @ - 1]
RECURSIVE DropAll(_, _)
DropAll(o, xs) == IF xs = <<>> THEN o ELSE DropAll(Drop1(o, xs[1]), SubSeq(xs, 2, Len(xs)))
Release(h) ==
  /\ h \in DOMAIN hs
  /\ objs' = (IF objs[h].refs = 1 THEN DropAll(HDel(objs, h), objs[h].items) ELSE Drop1(objs, h))
  /\ hs' = HDel(hs, h) /\ val' = HDel(val, h) /\ UNCHANGED made

(* ------------------------------------------------------------- properties *)
NoDangling == \A x \in DOMAIN objs : \A i \in 1..Len(objs[x].items) : objs[x].items[i] \in DOMAIN objs
HandlesLive == DOMAIN hs \subseteq DOMAIN objs
Exact == \A x \in DOMAIN objs :
           objs[x].refs = (IF x \in DOMAIN hs THEN 1 ELSE 0)
                          + Cardinality({<<y, i>> \in (DOMAIN objs) \X (1..MaxLen) : i <= Len(objs[y].items) /\ objs[y].items[i] = x})
NoLeak == DOMAIN hs = {} => DOMAIN objs = {}
(* sharing is not noticed: what a handle reaches is its value *)
ByValue == \A h \in DOMAIN hs :
             IF hs[h] = "rule" THEN objs[h].doc = val[h]
             ELSE [i \in 1..Len(objs[h].items) |-> objs[objs[h].items[i]].doc] = val[h]
=================================================================================
