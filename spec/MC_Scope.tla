--------------------------------- MODULE MC_Scope ---------------------------------
(***************************************************************************)
(* Closed model of scopes: walking down an event, one segment per step, with *)
(* every scope made of few short paths. Every scope is printed; each is       *)
(* replayed in the code on an event with all the paths of the model.          *)
(***************************************************************************)
EXTENDS Scope, FiniteSets, TLC, Json

CONSTANTS Depth, ScopeDepth, MaxInc, MaxExc

VARIABLES sc, implicit, at
mv == <<sc, implicit, at>>

Segs == {<<"f", <<97>>>>, <<"f", <<98>>>>, <<"i", <<0>>>>}
RECURSIVE PathsTo(_)
PathsTo(n) == IF n = 0 THEN {<<>>} ELSE PathsTo(n - 1) \cup {Append(p, g) : p \in {q \in PathsTo(n - 1) : Len(q) = n - 1}, g \in Segs}
ScopePaths == PathsTo(ScopeDepth)
RECURSIVE SetAsSeq(_)
SetAsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetAsSeq(S \ {x})
UpTo(n) == {<<>>} \cup {<<p>> : p \in ScopePaths} \cup
           (IF n < 2 THEN {} ELSE {SetAsSeq({p, q}) : p \in ScopePaths, q \in ScopePaths})
Scopes == {[t |-> "inc", inc |-> i, exc |-> e] : i \in UpTo(MaxInc), e \in UpTo(MaxExc)}
          \cup {[t |-> "exc", exc |-> e] : e \in UpTo(2)}

Init == /\ sc \in Scopes /\ implicit \in BOOLEAN /\ at = <<>>
        /\ PrintT(<<"VEC", ToJson([sc |-> sc, implicit |-> implicit])>>)
Enter == /\ Len(at) < Depth
         /\ \E g \in Segs : at' = Append(at, g)
         /\ UNCHANGED <<sc, implicit>>
Next == Enter

AllPaths(s) == ValuesOf(s.exc) \cup (IF s.t = "inc" THEN ValuesOf(s.inc) ELSE {})
Without(p, D) == LET keep == {k \in 1..Len(p) : k \notin D} IN
                 LET nth(j) == CHOOSE k \in keep : Cardinality({x \in keep : x < k}) = j - 1 IN
                 [j \in 1..Cardinality(keep) |-> p[nth(j)]]
IsPrefix(S, p) == Len(S) <= Len(p) /\ \A k \in 1..Len(S) : S[k] = p[k]

(* without implicit wildcards: the scope path is a prefix of the place *)
Exact == \A S \in AllPaths(sc) : Covers(S, at, FALSE) = IsPrefix(S, at)
(* implicit wildcards only add places, and only by leaving out indexes *)
ImplicitAdds == \A S \in AllPaths(sc) : Covers(S, at, FALSE) => Covers(S, at, TRUE)
ImplicitSound == \A S \in AllPaths(sc) : Covers(S, at, TRUE) =>
                    \E D \in SUBSET {k \in 1..Len(at) : IsIdx(at[k])} : IsPrefix(S, Without(at, D))
NoIndexNoChange == (\A k \in 1..Len(at) : ~IsIdx(at[k])) => \A S \in AllPaths(sc) : Covers(S, at, TRUE) = Covers(S, at, FALSE)
NamesOnlyCover == \A S \in AllPaths(sc) : (\A k \in 1..Len(S) : ~IsIdx(S[k])) =>
                    (Covers(S, at, TRUE) <=> IsPrefix(S, SelectSeq(at, LAMBDA g : ~IsIdx(g))))
(* what holds at a place holds below it *)
Below == [][ /\ InScope(sc, at, implicit) => InScope(sc, at', implicit)
             /\ Excluded(sc, at, implicit) => Excluded(sc, at', implicit) ]_mv
=================================================================================
