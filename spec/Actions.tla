-------------------------------- MODULE Actions --------------------------------
(***************************************************************************)
(* Match actions. HashTab is a table of <<text, hex digest>> pairs: the     *)
(* fingerprint itself is not modelled.                                       *)
(***************************************************************************)
EXTENDS Text

Mutating(act) == act.t # "none"

ActionError(act) == act.t \in {"first", "last"} /\ act.n = 0

Stars(n) == Reps(42, n)

Lookup(tab, s) == LET k == CHOOSE k \in 1..Len(tab) : tab[k][1] = s IN tab[k][2]

(* What the matched text m becomes. Partial redaction always writes n asterisks. *)
Replace(act, m, tab) ==
  CASE act.t = "none" -> m
    [] act.t = "redact" -> act.r
    [] act.t = "hash" -> Lookup(tab, m)
    [] act.t = "hash16" -> Lookup(tab, <<-1>> \o m)
    [] act.t = "first" -> Stars(act.n) \o (IF Len(m) > act.n THEN Sub(m, act.n, Len(m)) ELSE <<>>)
    [] act.t = "last" -> (IF Len(m) > act.n THEN Sub(m, 0, Len(m) - act.n) ELSE <<>>) \o Stars(act.n)

ReplacementType(act) ==
  CASE act.t = "none" -> "none"
    [] act.t = "redact" -> "placeholder"
    [] act.t \in {"hash", "hash16"} -> "hash"
    [] act.t = "first" -> "partial_beginning"
    [] act.t = "last" -> "partial_end"
=================================================================================
