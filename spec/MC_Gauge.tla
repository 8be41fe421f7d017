--------------------------------- MODULE MC_Gauge ---------------------------------
(* The number of live scanners is counted by the library and published to a gauge that can only be set. Threads    *)
(* create and drop scanners; counting and publishing are separate steps. When nobody is between the two, the gauge *)
(* has to show the count. It does when both happen under a lock (Locked), and not otherwise.                       *)
EXTENDS Integers, FiniteSets

CONSTANTS Threads, MaxOps, Locked
VARIABLES count, gauge, live, pc, val, lock, ops
gv == <<count, gauge, live, pc, val, lock, ops>>

Init == /\ count = 0 /\ gauge = 0 /\ live = 0 /\ pc = [t \in Threads |-> "idle"] /\ val = [t \in Threads |-> 0]
        /\ lock = "free" /\ ops = 0

(* building or dropping a scanner *)
Count(t, d) == /\ pc[t] = "idle" /\ ops < MaxOps /\ (Locked => lock = "free") /\ live + d >= 0
               /\ ops' = ops + 1 /\ live' = live + d /\ count' = count + d
               /\ val' = [val EXCEPT ![t] = count'] /\ pc' = [pc EXCEPT ![t] = "publish"]
               /\ lock' = (IF Locked THEN t ELSE lock) /\ gauge' = gauge
Publish(t) == /\ pc[t] = "publish" /\ gauge' = val[t] /\ pc' = [pc EXCEPT ![t] = "idle"]
              /\ lock' = (IF Locked THEN "free" ELSE lock) /\ UNCHANGED <<count, live, val, ops>>
Next == \E t \in Threads : Publish(t) \/ \E d \in {-1, 1} : Count(t, d)

Quiet == \A t \in Threads : pc[t] = "idle"
GaugeShowsLive == Quiet => gauge = live
===================================================================================
