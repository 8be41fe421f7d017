------------------------------- MODULE TraceBinary -------------------------------
(* Judges "binary" records: BinaryEvent and encode_response used directly, in both encodings. *)
EXTENDS WireScan

VARIABLE l

Verdict(in, o) ==
  IF Abnormal(o) # "" THEN Abnormal(o)
  ELSE LET be == BuildErr(in, Compiled(in)) IN
       IF o.build # be THEN "building the scanner: wrong outcome"
       ELSE IF be # "ok" THEN ""
       ELSE LET w == BytesRight(in, in.bytes, o, "leftmost") IN
            IF w = "" THEN "" ELSE IF Ambiguous(in) THEN BytesRight(in, in.bytes, o, "earliest") ELSE w

Next == /\ l <= Len(Cases)
        /\ Report(Cases[l].id, Verdict(In(l), Out(l))) /\ Consumed(l)
        /\ l' = l + 1 /\ UNCHANGED vars
Init == /\ l = 1 /\ cfg = <<>> /\ leaves = <<>> /\ nxt = 1 /\ found = <<>> /\ excl = {} /\ phase = "idle" /\ out = <<>>
=================================================================================
