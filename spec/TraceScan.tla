-------------------------------- MODULE TraceScan --------------------------------
(***************************************************************************)
(* Judges "scan" records: the callbacks the library made on the event        *)
(* (visit, mut) and its result have to be a behaviour of SdsScan.            *)
(***************************************************************************)
EXTENDS ScanCase

VARIABLES l, k, might        \* record, event of its trace, might_mutate answers so far

tvars == <<vars, l, k, might>>

Idle == phase = "idle"
NoScan == /\ cfg' = <<>> /\ leaves' = <<>> /\ nxt' = 1 /\ found' = <<>> /\ excl' = {} /\ phase' = "idle"
          /\ out' = <<>> /\ k' = 1 /\ might' = <<>>

(* Record l is finished; why = "" or what is wrong with it. *)
Next1(why) == /\ Report(Cases[l].id, why) /\ Consumed(l) /\ l' = l + 1 /\ NoScan

Load(mode) ==
  LET in == In(l) comp == Compiled(in) IN
  /\ cfg' = Config(in, Out(l), comp, mode)
  /\ leaves' = in.ev /\ nxt' = 1 /\ found' = <<>> /\ excl' = {} /\ phase' = "visit" /\ out' = <<>>
  /\ k' = 1 /\ might' = <<>> /\ l' = l

Begin ==
  /\ Idle /\ l <= Len(Cases)
  /\ LET o == Out(l)
         ab == Abnormal(o) IN
     IF ab # "" THEN Next1(ab)
     ELSE LET be == BuildErr(In(l), Compiled(In(l))) IN
          IF o.build # be THEN Next1("building the scanner: wrong outcome")
          ELSE IF be # "ok" THEN Next1("")
          ELSE Load("leftmost")

Wrong(why) == IF cfg.mode = "leftmost" /\ Ambiguous(In(l)) THEN Load("earliest") ELSE Next1(why)

Event == Out(l).trace[k]
MoreEvents == k <= Len(Out(l).trace)

TraceVisit ==
  /\ phase = "visit" /\ nxt <= Len(leaves)
  /\ IF ~MoreEvents \/ Event.e # "visit" \/ Event.i # nxt - 1 \/ ~Event.path_ok
     THEN Wrong("harness: strings not visited in order")
     ELSE Visit /\ k' = k + 1 /\ might' = Append(might, Event.might) /\ l' = l

TraceStartApply == StartApply /\ UNCHANGED <<l, k, might>>

(* The library asks for the string it wants to change (or look at again). Strings it leaves alone   *)
(* must have nothing to change.                                                                      *)
TraceApply ==
  /\ phase = "apply" /\ nxt <= Len(leaves)
  /\ LET p == Process(cfg, excl, leaves[nxt], found[nxt])
         now == MoreEvents /\ Event.e = "mut" /\ Event.i = nxt - 1 IN
     IF now
     THEN IF ~might[nxt] THEN Wrong("a string was accessed for writing that was announced as not changing")
          ELSE IF Event.before # leaves[nxt].s THEN Wrong("harness: the string was changed before")
          ELSE IF Event.after # p.res.text THEN Wrong("redacted text")
          ELSE IF Event.after # Event.before /\ ~Event.chg THEN Wrong("a change was not announced to the event")
          ELSE IF Event.chg /\ ~p.mutating THEN Wrong("a change was announced that did not happen")
          ELSE Apply /\ k' = k + 1 /\ UNCHANGED <<l, might>>
     ELSE IF p.res.text # leaves[nxt].s THEN Wrong("a string was not redacted")
          ELSE Apply /\ UNCHANGED <<l, k, might>>

TraceEnd ==
  /\ phase = "apply" /\ nxt > Len(leaves)
  /\ IF MoreEvents THEN Wrong("unexpected access to a string")
     ELSE IF Out(l).leaves # [j \in 1..Len(leaves) |-> leaves[j].s] THEN Wrong("final text")
     ELSE IF Out(l).encerr # 0 THEN Wrong("match starts handed to the encoding are not ascending")
     ELSE IF Out(l).matches # out THEN Wrong("reported matches")
     ELSE Next1("")

Init == /\ l = 1 /\ k = 1 /\ might = <<>> /\ cfg = <<>> /\ leaves = <<>> /\ nxt = 1 /\ found = <<>> /\ excl = {}
        /\ phase = "idle" /\ out = <<>>
Next == Begin \/ TraceVisit \/ TraceStartApply \/ TraceApply \/ TraceEnd
=================================================================================
