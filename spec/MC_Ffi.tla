--------------------------------- MODULE MC_Ffi ---------------------------------
(* Closed model of Handles; prints every history (up to Depth steps, everything released at the end) to be replayed. *)
EXTENDS Handles, TLC, Json
CONSTANT Depth, Scans
VARIABLE h
Step(x) == h' = Append(h, x)
Init == HInit /\ h = <<>>
Room(n) == Len(h) + n + Cardinality(DOMAIN hs) <= Depth
Next ==
  \/ \E d \in Docs : MakeRule(d) /\ Room(2) /\ Step([do |-> "rule", h |-> made + 1, doc |-> d])
  \/ \E d \in Docs : RefuseRule(d) /\ Room(1) /\ (\A i \in 1..Len(h) : h[i] # [do |-> "rule", h |-> 99, doc |-> d])
                     /\ Step([do |-> "rule", h |-> 99, doc |-> d])
  \/ MakeList /\ Room(2) /\ Step([do |-> "list", h |-> made + 1])
  \/ \E r \in Ids("rule"), t \in Ids("list") : AppendRule(r, t) /\ Room(1) /\ Step([do |-> "append", rule |-> r, list |-> t])
  \/ \E t \in Ids("list") : MakeScanner(t) /\ Room(2) /\ Step([do |-> "scanner", h |-> made + 1, list |-> t])
  \/ \E t \in Ids("list") : RefuseScanner(t) /\ Room(1) /\ (h[Len(h)].do # "scanner") /\ Step([do |-> "scanner", h |-> 98, list |-> t])
  \/ Scans /\ \E s \in Ids("scanner") : Room(1) /\ Step([do |-> "scan", h |-> s]) /\ h[Len(h)].do # "scan" /\ UNCHANGED hv
  \/ \E x \in DOMAIN hs : Release(x) /\ Step([do |-> CASE hs[x] = "rule" -> "free_rule" [] hs[x] = "list" -> "free_list" [] OTHER -> "delete", h |-> x])
Vec == (hs = <<>> /\ made > 0 /\ \E i \in 1..Len(h) : h[i].do = "scanner") => PrintT(<<"VEC", ToJson(h)>>)
=================================================================================
