-------------------------------- MODULE RegexStore --------------------------------
(***************************************************************************)
(* Compiled patterns are shared by all scanners of the process. The store    *)
(* maps what is to be compiled to a key and keeps weak references; scratch    *)
(* memory for searching ("caches") is found by key, in slots that are reused. *)
(*                                                                         *)
(* Building a rule looks the pattern up, compiles it outside of the lock      *)
(* when it is missing, and inserts the result, unless another thread was       *)
(* faster. Every so many insertions the dead entries are removed.              *)
(*                                                                         *)
(* A pattern here is what decides the compiled form: its text together with    *)
(* the way it is read (as a rule or as keywords).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Patterns, Threads, Scanners, NSlots, GcEvery, MaxRx

VARIABLES store,    \* key -> [pat, rx]          key = <<slot, version>>
          index,    \* pattern -> key
          held,     \* scanner -> [pat, key, rx] (while it lives)
          pc,       \* thread -> idle, or compiling a pattern for a scanner
          cache,    \* slot -> [ver, rx]
          version,  \* slot -> last version used
          rxs, inserts, bad
svars == <<store, index, held, pc, cache, version, rxs, inserts, bad>>

None == <<>>
Live(rx) == \E s \in DOMAIN held : held[s].rx = rx
Get(st, ix, p) == IF p \in DOMAIN ix /\ ix[p] \in DOMAIN st /\ Live(st[ix[p]].rx) THEN ix[p] ELSE None

Without(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

StoreInit ==
  /\ store = <<>> /\ index = <<>> /\ held = <<>> /\ pc = [t \in Threads |-> None]
  /\ cache = <<>> /\ version = [s \in 1..NSlots |-> 0] /\ rxs = 0 /\ inserts = 0 /\ bad = FALSE

Free(s) == s \notin DOMAIN held /\ {t \in Threads : pc[t] # None /\ pc[t][1].s = s} = {}

Lookup(t, s, p) ==
  /\ pc[t] = None /\ Free(s)
  /\ LET k == Get(store, index, p) IN
     IF k # None
     THEN held' = With(held, s, [pat |-> p, key |-> k, rx |-> store[k].rx]) /\ pc' = pc
     ELSE pc' = [pc EXCEPT ![t] = << [s |-> s, p |-> p] >>] /\ held' = held
  /\ UNCHANGED <<store, index, cache, version, rxs, inserts, bad>>

Dead == {p \in DOMAIN index : ~Live(store[index[p]].rx)}
Collected == [st |-> Without(store, {index[p] : p \in Dead}), ix |-> Without(index, Dead)]

Insert(t) ==
  /\ pc[t] # None /\ rxs < MaxRx
  /\ LET p == pc[t][1].p
         c == IF inserts + 1 >= GcEvery THEN Collected ELSE [st |-> store, ix |-> index]
         k == Get(c.st, c.ix, p) IN
     /\ rxs' = rxs + 1                       \* the new regex
     /\ inserts' = IF inserts + 1 >= GcEvery THEN 0 ELSE inserts + 1
     /\ IF k # None
        THEN /\ held' = With(held, pc[t][1].s, [pat |-> p, key |-> k, rx |-> c.st[k].rx])
             /\ store' = c.st /\ index' = c.ix /\ version' = version
        ELSE \E sl \in {sl \in 1..NSlots : \A q \in DOMAIN c.st : q[1] # sl} :
               LET key == <<sl, version[sl] + 1>>
                   old == IF p \in DOMAIN c.ix THEN {c.ix[p]} ELSE {} IN
               /\ version' = [version EXCEPT ![sl] = @ + 1]
               /\ store' = With(Without(c.st, old), key, [pat |-> p, rx |-> rxs'])
               /\ index' = With(c.ix, p, key)
               /\ held' = With(held, pc[t][1].s, [pat |-> p, key |-> key, rx |-> rxs'])
  /\ pc' = [pc EXCEPT ![t] = None]
  /\ UNCHANGED <<cache, bad>>

(* A search uses the scratch memory found under the key of the regex. *)
Search(s) ==
  /\ s \in DOMAIN held
  /\ LET h == held[s]
         sl == h.key[1]
         hit == sl \in DOMAIN cache /\ cache[sl].ver = h.key[2]
         newer == sl \in DOMAIN cache /\ cache[sl].ver > h.key[2] IN
     /\ bad' = (bad \/ newer \/ (hit /\ cache[sl].rx # h.rx))
     /\ cache' = IF hit \/ newer THEN cache ELSE With(cache, sl, [ver |-> h.key[2], rx |-> h.rx])
  /\ UNCHANGED <<store, index, held, pc, version, rxs, inserts>>

Drop(s) ==
  /\ s \in DOMAIN held
  /\ held' = Without(held, {s})
  /\ UNCHANGED <<store, index, pc, cache, version, rxs, inserts, bad>>

StoreNext ==
  \/ \E t \in Threads, s \in Scanners, p \in Patterns : Lookup(t, s, p)
  \/ \E t \in Threads : Insert(t)
  \/ \E s \in Scanners : Search(s) \/ Drop(s)

-----------------------------------------------------------------------------
(* what has to hold *)
RightRegex == \A s \in DOMAIN held : held[s].key \in DOMAIN store /\ store[held[s].key] = [pat |-> held[s].pat, rx |-> held[s].rx]
RightCache == ~bad
Shared == \A s, r \in DOMAIN held : held[s].pat = held[r].pat => held[s].rx = held[r].rx
Bijection == /\ \A p \in DOMAIN index : index[p] \in DOMAIN store /\ store[index[p]].pat = p
             /\ Cardinality(DOMAIN index) = Cardinality(DOMAIN store)
Bounded == Cardinality({k \in DOMAIN store : ~Live(store[k].rx)}) <= GcEvery + Cardinality(Threads) + Cardinality(Scanners)
===================================================================================
