--------------------------------- MODULE Scope ---------------------------------
(***************************************************************************)
(* Which rules apply to which place of an event. A path is a sequence of    *)
(* segments <<"f", name>> or <<"i", <<n>>>>. A scope is                      *)
(*   [t |-> "all"]                                                          *)
(*   [t |-> "inc", inc |-> paths, exc |-> paths]                            *)
(*   [t |-> "exc", exc |-> paths]                                           *)
(***************************************************************************)
EXTENDS Text

IsIdx(seg) == seg[1] = "i"

(* Does the scope path S cover the event path P, i.e. is P at S or below it? With implicit index    *)
(* wildcards, array indices of P may be skipped; an index right after a skipped one is skipped too.  *)
RECURSIVE CoversFrom(_, _, _, _)
CoversFrom(S, P, implicit, skipped) ==
  IF S = <<>> THEN TRUE
  ELSE IF P = <<>> THEN FALSE
  ELSE \/ /\ S[1] = P[1]
          /\ ~(skipped /\ IsIdx(P[1]))
          /\ CoversFrom(Tail(S), Tail(P), implicit, FALSE)
       \/ /\ implicit /\ IsIdx(P[1])
          /\ CoversFrom(S, Tail(P), implicit, TRUE)
Covers(S, P, implicit) == CoversFrom(S, P, implicit, FALSE)

AnyCovers(paths, P, implicit) == \E k \in 1..Len(paths) : Covers(paths[k], P, implicit)

(* The rule looks at the string at P at all. *)
InScope(sc, P, implicit) ==
  CASE sc.t = "all" -> TRUE
    [] sc.t = "inc" -> AnyCovers(sc.inc, P, implicit)
    [] sc.t = "exc" -> TRUE
(* P is excluded: what the rule finds there is not reported, only remembered. *)
Excluded(sc, P, implicit) ==
  CASE sc.t = "all" -> FALSE
    [] OTHER -> AnyCovers(sc.exc, P, implicit)
=================================================================================
