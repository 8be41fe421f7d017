-------------------------------- MODULE TraceHist --------------------------------
(***************************************************************************)
(* Judges "hist" records: scanners are built, used and dropped in some order, *)
(* on one or several threads. Every operation must have the outcome it has     *)
(* for that scanner alone.                                                     *)
(***************************************************************************)
EXTENDS ScanCase

VARIABLES l,        \* record
          t,        \* 0: the prelude, 1..: thread
          k,        \* next step of that thread
          slots,    \* scanners of this thread: slot -> the build step
          base,     \* those of the prelude
          kept      \* number of scanners the threads have made and kept

hvars == <<vars, l, t, k, slots, base, kept>>

Steps(n, th) == IF th = 0 THEN In(n).pre ELSE In(n).threads[th]
Outs(n, th) == IF th = 0 THEN Out(n).pre ELSE Out(n).outs[th]
NThreads(n) == Len(In(n).threads)
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

NoScan == UNCHANGED vars
Next1(why) == /\ Report(Cases[l].id, why) /\ Consumed(l) /\ l' = l + 1 /\ t' = 0 /\ k' = 1 /\ slots' = <<>> /\ base' = <<>> /\ kept' = 0 /\ NoScan

(* expected outcome of a scan step by the scanner built by step b *)
Right(b, s, o) ==
  LET in == [rules |-> b.rules, opts |-> b.opts, blocked |-> s.blocked, enc |-> s.enc]
      ok(mode) == LET x == Outcome(Config(in, o, Compiled(in), mode), s.ev) IN o.matches = x.out /\ o.leaves = x.leaves IN
  ok("leftmost") \/ (Ambiguous(in) /\ ok("earliest"))

(* patterns used by live scanners: what the library has to keep *)
Pats(sl) == UNION {{b.rules[j].pat : j \in {j \in 1..Len(b.rules) : b.rules[j].k = "regex"}} : b \in {sl[x] : x \in DOMAIN sl}}
Gauges(g, sl, start) ==
  IF g.scanners # start.scanners + Cardinality(DOMAIN sl) THEN "number of live scanners"
  ELSE IF g.made - g.gone # (start.made - start.gone) + Cardinality(DOMAIN sl) THEN "scanners created and deleted"
  ELSE IF g.regexes < Cardinality(Pats(sl)) THEN "number of compiled patterns too low"
  \* keywords of live scanners: at most 4 patterns per rule
  ELSE IF g.regexes > 40 * Cardinality(DOMAIN sl) + 4000 THEN "compiled patterns are not released"
  ELSE IF (g.regexes > 0 /\ g.cache <= 0) \/ (g.regexes = 0 /\ g.cache # 0) THEN "memory of the compiled patterns"
  ELSE ""

Verdict(s, o, after) ==
  IF Abnormal(o) # "" THEN Abnormal(o)
  ELSE CASE s.do = "build" ->
              (LET be == BuildErr(s, Compiled(s)) IN IF o.build = be THEN "" ELSE "building the scanner: wrong outcome")
         [] s.do = "scan" -> IF Right(slots[s.k], s, o) THEN "" ELSE "a scan depends on the history"
         [] OTHER -> ""
After(s, o) ==
  CASE s.do = "build" -> IF o.build = "ok" THEN Put(slots, s.k, s) ELSE slots
    [] s.do = "drop" -> Del(slots, s.k)
    [] OTHER -> slots

(* the prelude's scanners outlive the threads, so a thread can drop its own only *)
Made == IF t = 0 THEN 0 ELSE Cardinality(DOMAIN slots \ DOMAIN base)

Step ==
  /\ l <= Len(Cases)
  /\ IF Abnormal(Out(l)) # "" THEN Next1(Abnormal(Out(l)))
     ELSE IF k <= Len(Steps(l, t))
     THEN LET s == Steps(l, t)[k]
              o == Outs(l, t)[k]
              v == Verdict(s, o, slots) IN
          IF v # "" THEN Next1(v)
          ELSE LET a == After(s, o)
                   g == IF t = 0 THEN Gauges(o.g, a, Out(l).start) ELSE "" IN
               IF g # "" THEN Next1(g)
               ELSE slots' = a /\ k' = k + 1 /\ UNCHANGED <<l, t, base, kept, vars>>
     ELSE IF t < NThreads(l)
     THEN LET b == IF t = 0 THEN slots ELSE base IN
          t' = t + 1 /\ k' = 1 /\ base' = b /\ slots' = b /\ kept' = kept + Made /\ UNCHANGED <<l, vars>>
     ELSE IF NThreads(l) > 0 /\ Out(l).mid.scanners # Out(l).start.scanners + Cardinality(DOMAIN base) + kept + Made
     THEN Next1("number of live scanners once the threads are done")
     ELSE Next1(Gauges(Out(l).end, <<>>, Out(l).start))

Init == /\ l = 1 /\ t = 0 /\ k = 1 /\ slots = <<>> /\ base = <<>> /\ kept = 0 /\ cfg = <<>> /\ leaves = <<>> /\ nxt = 1 /\ found = <<>>
        /\ excl = {} /\ phase = "idle" /\ out = <<>>
Next == Step
==================================================================================
