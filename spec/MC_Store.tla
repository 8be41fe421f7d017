--------------------------------- MODULE MC_Store ---------------------------------
(* Closed model of the regex store; with one thread it also enumerates histories, which are replayed. *)
EXTENDS RegexStore, TLC, Json

CONSTANTS Depth      \* 0: no histories
VARIABLES h

Init == StoreInit /\ h = <<>>

Step(x) == Append(h, x)
Lowest(s) == Free(s) /\ \A r \in Scanners : r < s => ~Free(r)

(* sequential histories of whole operations *)
Build1(s, p) ==
  /\ Lowest(s) /\ h' = Step([do |-> "build", k |-> s, p |-> p])
  /\ LET k == Get(store, index, p) IN
     IF k # None THEN Lookup("t1", s, p)
     ELSE LET sl == CHOOSE sl \in 1..NSlots : \A q \in DOMAIN store : q[1] # sl
              key == <<sl, version[sl] + 1>>
              old == IF p \in DOMAIN index THEN {index[p]} ELSE {} IN
          /\ rxs' = rxs + 1 /\ inserts' = inserts
          /\ version' = [version EXCEPT ![sl] = @ + 1]
          /\ store' = With(Without(store, old), key, [pat |-> p, rx |-> rxs'])
          /\ index' = With(index, p, key)
          /\ held' = With(held, s, [pat |-> p, key |-> key, rx |-> rxs'])
          /\ UNCHANGED <<pc, cache, bad>>
Gc1 == /\ h' = Step([do |-> "churn"]) /\ \A j \in 1..Len(h) : h[j].do # "churn"
       /\ store' = Collected.st /\ index' = Collected.ix /\ UNCHANGED <<held, pc, cache, version, rxs, inserts, bad>>

HistNext ==
  /\ Len(h) < Depth
  /\ \/ \E s \in Scanners, p \in Patterns : Build1(s, p)
     \/ \E s \in Scanners : Search(s) /\ h' = Step([do |-> "scan", k |-> s]) /\ (h = <<>> \/ h[Len(h)] # [do |-> "scan", k |-> s])
     \/ \E s \in Scanners : Drop(s) /\ h' = Step([do |-> "drop", k |-> s])
     \/ Gc1
Vec == Len(h) = Depth => PrintT(<<"VEC", ToJson(h)>>)

Next == IF Depth = 0 THEN StoreNext /\ h' = h ELSE HistNext
===================================================================================
