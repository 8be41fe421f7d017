-------------------------------- MODULE TraceLib --------------------------------
(***************************************************************************)
(* Reading records of the executor. A record is [id, in, out]: the case    *)
(* that was run against the library and what the library did. The trace    *)
(* specifications consume them one after another; a record that is not a   *)
(* behaviour of the specification is reported and skipped, so that one run  *)
(* judges all records.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

Field(r, f) == f \in DOMAIN r

(* The library panicked, hung or died. *)
Abnormal(o) == IF "panic" \in DOMAIN o THEN "panic"
               ELSE IF "hang" \in DOMAIN o THEN "hang"
               ELSE IF "crash" \in DOMAIN o THEN "crash" ELSE ""

Report(id, why) == IF why = "" THEN TRUE ELSE PrintT(<<"MISMATCH", id, why>>)
Consumed(n) == IF n = Len(Cases) THEN PrintT(<<"CONSUMED", n>>) ELSE TRUE
=================================================================================
