-------------------------------- MODULE WireScan --------------------------------
(***************************************************************************)
(* The scan of an event given as bytes, answered in bytes: the response says   *)
(* what SdsScan says, in the format of Wire.                                  *)
(***************************************************************************)
EXTENDS ScanCase, Wire

(* in: rules and options; b: event bytes; o: [err, size, cap, resp] of the call *)
BytesRight(in, b, o, mode) ==
  LET e == EventOf(b) IN
  CASE e.st = "bad" -> IF o.err /\ o.size = 0 /\ o.cap = 0 /\ o.resp = <<>> THEN "" ELSE "malformed bytes were not refused"
    [] e.st = "odd" -> ""
    [] OTHER ->
       LET c == Config(in, o, Compiled(in), mode)
           ev == e.ev
           ex == UNION {Remembered(c, ev[j].s, ev[j].p) : j \in 1..Len(ev)}
           pr == [j \in 1..Len(ev) |-> Process(c, ex, ev[j], Candidates(c, 1, ev[j].s, ev[j].p))]
           reps == Flatten([j \in 1..Len(ev) |-> pr[j].res.reps])
           r == ResponseOf(o.resp)
           shown == [j \in 1..Len(reps) |-> [rule |-> reps[j].rule, path |-> Show(reps[j].path), rt |-> RtText(reps[j].rt),
                                            start |-> reps[j].start, end |-> reps[j].end, shift |-> reps[j].shift]] IN
       IF o.err THEN "a well-formed event was refused"
       ELSE IF Len(o.resp) # o.size \/ o.cap < o.size THEN "size of the response"
       ELSE IF reps = <<>> THEN IF o.resp = <<>> /\ o.cap = 0 THEN "" ELSE "a response although nothing matched"
       ELSE IF ~r.ok THEN "the response is not in the format"
       ELSE IF r.ms # shown THEN "reported matches"
       ELSE IF \E i, j \in 1..Len(r.muts) : i # j /\ r.muts[i].p = r.muts[j].p THEN "a string is sent back twice"
       ELSE IF \E j \in 1..Len(ev) :
                 LET here == {i \in 1..Len(r.muts) : r.muts[i].p = ev[j].p} IN
                 \/ here = {} /\ pr[j].res.text # ev[j].s
                 \/ here # {} /\ (~pr[j].mutating \/ r.muts[CHOOSE i \in here : TRUE].s # pr[j].res.text)
            THEN "strings sent back"
       ELSE IF \E i \in 1..Len(r.muts) : ~\E j \in 1..Len(ev) : ev[j].p = r.muts[i].p THEN "a string sent back is not in the event"
       ELSE ""
=================================================================================
