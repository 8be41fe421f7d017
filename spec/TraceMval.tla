-------------------------------- MODULE TraceMval --------------------------------
(***************************************************************************)
(* Judges "mval" records: a scan, then validate_matches against a server     *)
(* that recorded the requests in the order of their arrival.                 *)
(***************************************************************************)
EXTENDS SdsScan, MatchValidation, TraceLib

VARIABLES l, k, cks
tvars == <<vars, todo, stat, l, k, cks>>

In(n) == Cases[n].in
Out(n) == Cases[n].out

Keep1 == /\ cfg' = <<>> /\ leaves' = <<>> /\ nxt' = 1 /\ found' = <<>> /\ excl' = {} /\ phase' = "idle" /\ out' = <<>>
Next1(why) == /\ Report(Cases[l].id, why) /\ Consumed(l) /\ l' = l + 1 /\ k' = 0 /\ cks' = <<>> /\ todo' = {} /\ stat' = <<>> /\ Keep1

(* The scan, in one step: no excluded paths here *)
Config(in) ==
  [rules |-> in.rules, comp |-> [j \in 1..Len(in.rules) |-> Compile(in.rules[j].pat).n], implicit |-> FALSE, kwpath |-> FALSE,
   multipass |-> TRUE, retval |-> CanValidate(in.rules), blocked |-> {}, enc |-> "utf8", tab |-> <<>>, mode |-> "leftmost"]
Scanned(in) == Outcome(Config(in), in.ev).out

NoMsg(m) == [f \in DOMAIN m \ {"msg"} |-> m[f]]
Before0(o) == [j \in 1..Len(o.before) |-> NoMsg(o.before[j])]

Begin ==
  /\ k = 0 /\ l <= Len(Cases)
  /\ LET in == In(l) o == Out(l) IN
     IF Abnormal(o) # "" THEN Next1(Abnormal(o))
     ELSE IF o.build # "ok" THEN Next1("building the scanner: wrong outcome")
     ELSE IF Before0(o) # Scanned(in) THEN Next1("matches before validation")
     ELSE IF ~CanValidate(in.rules)
          THEN Next1(IF o.res # "err" THEN "validation without a validator did not fail"
                     ELSE IF o.reqs # <<>> THEN "unexpected request"
                     ELSE "")
     ELSE IF o.res # "ok" THEN Next1("validation failed")
     ELSE LET cs == Checks(in.rules, o.before) IN
          /\ k' = 1 /\ cks' = cs /\ l' = l
          /\ todo' = 1..Len(cs) /\ stat' = [j \in 1..Len(o.before) |-> [s |-> o.before[j].status, codes |-> {}]]
          /\ UNCHANGED vars

SameReq(a, b) == /\ a.method = b.method /\ a.path = b.path /\ a.aws = b.aws /\ Len(a.vals) = Len(b.vals)
                 /\ \A v \in ValuesOf(a.vals) : Cardinality({j \in 1..Len(a.vals) : a.vals[j] = v}) = Cardinality({j \in 1..Len(b.vals) : b.vals[j] = v})

(* What the server of this case answers *)
Contains(h, n) == \E i \in 0..(Len(h) - Len(n)) : SubSeq(h, i + 1, i + Len(n)) = n
Answer(in, req) ==
  LET hit == {j \in 1..Len(in.srv) : LET e == in.srv[j] IN
                /\ e.path = req.path /\ e.aws = req.aws
                /\ \E h \in 1..Len(req.vals) : Contains(req.vals[h][2], e.needle) /\ (req.aws => req.vals[h][1] = e.id)}
      c == IF hit = {} THEN in.default ELSE in.srv[CHOOSE j \in hit : \A i \in hit : j <= i].code
  IN Max2(c, 0)

Request ==
  /\ k > 0 /\ k <= Len(Out(l).reqs)
  /\ LET r == Out(l).reqs[k]
         cand == {n \in todo : cks[n].go /\ SameReq(cks[n].req, r)} IN
     IF cand = {} THEN Next1("unexpected request")
     ELSE LET n == CHOOSE n \in cand : TRUE IN
          /\ Perform(cks, n, Answer(In(l), cks[n].req)) /\ k' = k + 1 /\ UNCHANGED <<l, cks, vars>>

(* Checks that cannot be sent leave no trace at the server. *)
Silent ==
  /\ k > 0 /\ k > Len(Out(l).reqs) /\ todo # {}
  /\ LET n == CHOOSE n \in todo : TRUE IN
     IF cks[n].go THEN Next1("a match was not checked")
     ELSE Perform(cks, n, 0) /\ UNCHANGED <<l, k, cks, vars>>

(* message of an error: the code of one of the failed checks *)
Msg(c) == "Unexpected HTTP status code " \o ToString(c)
MsgOk(st, m) == IF st.s # "Error" THEN m.msg = "" ELSE 0 \in st.codes \/ \E c \in st.codes : m.msg = Msg(c)

Same(a, b) == \A f \in DOMAIN a \ {"msg", "status"} : a[f] = b[f]
Matches(b, st, a) == Same(b, a) /\ a.status = st.s /\ MsgOk(st, a)
(* the result is the list of matches with their new status, in order of position *)
Final(o) ==
  IF Len(o.after) # Len(o.before) THEN "matches were lost or added"
  ELSE IF \E j \in 1..(Len(o.after) - 1) : o.after[j].start > o.after[j + 1].start THEN "matches are not in order"
  ELSE IF \E j \in 1..Len(o.before) :
            Cardinality({i \in 1..Len(o.after) : Matches(o.before[j], stat[j], o.after[i])})
            < Cardinality({i \in 1..Len(o.before) : Same(o.before[i], o.before[j])})
       THEN "status of a match"
  ELSE ""

End == /\ k > 0 /\ k > Len(Out(l).reqs) /\ todo = {} /\ Next1(Final(Out(l)))

Init == /\ l = 1 /\ k = 0 /\ cks = <<>> /\ todo = {} /\ stat = <<>> /\ cfg = <<>> /\ leaves = <<>> /\ nxt = 1 /\ found = <<>>
        /\ excl = {} /\ phase = "idle" /\ out = <<>>
Next == Begin \/ Request \/ Silent \/ End
==================================================================================
