--------------------------------- MODULE MC_Mval ---------------------------------
(***************************************************************************)
(* Closed model of match validation: two AWS ids, two secrets, one token     *)
(* tried at two endpoints and a match without validation; every combination  *)
(* of answers (fixed at the start) and every order of the checks.            *)
(***************************************************************************)
EXTENDS MatchValidation, TLC, Json

CONSTANTS Aws        \* TRUE: the pairs, FALSE: the endpoints
VARIABLES codes      \* answer to each check

S40(c) == [i \in 1..40 |-> c]
Rules == << [mv |-> [t |-> "aws_id"]], [mv |-> [t |-> "aws_secret", ep |-> "/aws", dead |-> FALSE]],
            [mv |-> [t |-> "http", ep |-> "/v", hosts |-> <<"/h1", "/h2", "/h3">>, dead |-> FALSE, method |-> "GET",
                     headers |-> << << <<97>>, Dollar >> >>, valid |-> << <<200, 300>> >>, invalid |-> << <<400, 500>> >>]],
            [none |-> TRUE] >>
M(r, v, s) == [rule |-> r, val |-> <<v>>, status |-> s]
Ms == IF Aws THEN << M(0, <<65, 49>>, "NotChecked"), M(1, S40(65), "NotChecked"), M(3, <<112>>, "NotAvailable"),
                     M(0, <<65, 50>>, "NotChecked"), M(1, S40(66), "NotChecked") >>
      ELSE << M(2, <<116>>, "NotChecked"), M(3, <<112>>, "NotAvailable") >>
Cks == Checks(Rules, Ms)
Codes == {200, 302, 403, 500, 0}

Init == /\ codes \in [1..Len(Cks) -> Codes]
        /\ StartChecks(Cks, Ms)
        /\ PrintT(<<"VEC", ToJson([aws |-> Aws, codes |-> codes])>>)
Next == /\ \E n \in todo : Perform(Cks, n, codes[n])
        /\ UNCHANGED codes

Mine(j) == {n \in 1..Len(Cks) : j \in ValuesOf(Cks[n].ms)}
Got(j) == {Verdict(Cks[n], codes[n]) : n \in Mine(j) \ todo}
(* the status is the strongest answer so far, whatever the order *)
Strongest == \A j \in 1..Len(Ms) :
   LET all == Got(j) \cup {Ms[j].status} IN
   stat[j].s \in all /\ \A a \in all : Rank(stat[j].s) >= Rank(a)
NotValidated == stat[IF Aws THEN 3 ELSE 2].s = "NotAvailable"
Monotone == [][\A j \in 1..Len(Ms) : Rank(stat'[j].s) >= Rank(stat[j].s)]_<<stat, todo, codes>>
(* a pair that the service confirms makes both of its members valid *)
BothValid == todo = {} => \A n \in 1..Len(Cks) :
                (codes[n] = 200) => \A j \in ValuesOf(Cks[n].ms) : stat[j].s = "Valid"
OnlyValid == todo = {} => \A j \in 1..Len(Ms) : stat[j].s = "Valid" => \E n \in Mine(j) : codes[n] = 200
==================================================================================
