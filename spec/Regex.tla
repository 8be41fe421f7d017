--------------------------------- MODULE Regex ---------------------------------
(***************************************************************************)
(* The SDS regex dialect: syntax (parser), static validation, and matching *)
(* semantics (leftmost, first alternative preferred).                       *)
(*                                                                         *)
(* The parser threads the inline flags i m s x through the pattern, so the  *)
(* tree it returns is flag free:                                           *)
(*   empty | set(P)... see the node constructors below.                     *)
(***************************************************************************)
EXTENDS Text, Unicode, TLC

MaxDepth == 50
MaxQuant == 3000

-----------------------------------------------------------------------------
(* Nodes *)
NEmpty == [k |-> "empty"]
NLit(c, ci) == [k |-> "lit", c |-> c, ci |-> ci]
NSet(items, neg, ci) == [k |-> "set", items |-> items, neg |-> neg, ci |-> ci]
NCat(xs) == IF Len(xs) = 1 THEN xs[1] ELSE [k |-> "cat", xs |-> xs]
NAlt(xs) == IF Len(xs) = 1 THEN xs[1] ELSE [k |-> "alt", xs |-> xs]
NRep(x, lo, hi, lazy) == [k |-> "rep", x |-> x, lo |-> lo, hi |-> hi, lazy |-> lazy]
NAs(t) == [k |-> "as", t |-> t]

(* Set items: <<"r", a, b>> range, <<"c", name, neg>> ASCII class, <<"p", name, neg>> Unicode
   property (evaluated only on the characters of module Unicode). *)
AsciiClass(n, c) ==
  CASE n = "alnum" -> IsAlnum(c)
    [] n = "alpha" -> IsAlpha(c)
    [] n = "ascii" -> c < 128
    [] n = "blank" -> c \in {9, 32}
    [] n = "cntrl" -> c < 32 \/ c = 127
    [] n = "digit" -> IsDigit(c)
    [] n = "graph" -> c >= 33 /\ c <= 126
    [] n = "lower" -> IsLower(c)
    [] n = "print" -> c >= 32 /\ c <= 126
    [] n = "punct" -> c >= 33 /\ c <= 126 /\ ~IsAlnum(c)
    [] n = "space" -> IsSpaceA(c)
    [] n = "upper" -> IsUpper(c)
    [] n = "word"  -> IsWord(c)
    [] n = "xdigit" -> IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
    [] n = "h" -> c \in {9, 32}
    [] n = "v" -> c \in {10, 11, 12, 13}

ItemHas(it, c, ci) ==
  IF it[1] = "r" THEN \E d \in (IF ci THEN FoldClass(c) ELSE {c}) : it[2] <= d /\ d <= it[3]
  ELSE (\E d \in (IF ci THEN FoldClass(c) ELSE {c}) : IF it[1] = "p" THEN HasProp(it[2], d) ELSE AsciiClass(it[2], d)) # it[3]

(* A class matches a character, under i, when it contains some case variant of it. *)
SetHas(nd, c) ==
  (\E d \in (IF nd.ci THEN FoldClass(c) ELSE {c}) :
      \E i \in 1..Len(nd.items) : ItemHas(nd.items[i], d, nd.ci)) # nd.neg

-----------------------------------------------------------------------------
(* Parser. A parse result is [ok, p, n, f] (next position, node, flags in    *)
(* force after it) or a failure [ok |-> FALSE, e |-> kind].                  *)
Fail(e) == [ok |-> FALSE, e |-> e]
Syn == "InvalidSyntax"
Done(p, n, f) == [ok |-> TRUE, p |-> p, n |-> n, f |-> f]

Ch(s, p) == IF p <= Len(s) THEN s[p] ELSE -1
Starts(s, p, t) == p + Len(t) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(t) - 1) = t

BS == 92  \* backslash
FlagChars == {105, 109, 115, 120}     \* i m s x
FlagOf(c) == CASE c = 105 -> "i" [] c = 109 -> "m" [] c = 115 -> "s" [] c = 120 -> "x"

RECURSIVE FlagRun(_, _)
FlagRun(s, p) == IF Ch(s, p) \in FlagChars
                 THEN LET r == FlagRun(s, p + 1) IN [p |-> r.p, fs |-> r.fs \cup {FlagOf(s[p])}]
                 ELSE [p |-> p, fs |-> {}]
(* flags at p: [-removed] *)
Flags(s, p) ==
  LET a == FlagRun(s, p)
      r == IF Ch(s, a.p) = 45 THEN FlagRun(s, a.p + 1) ELSE [p |-> a.p, fs |-> {}]
  IN [p |-> r.p, add |-> a.fs \ r.fs, rem |-> r.fs]
ApplyFlags(f, fl) == (f \ fl.rem) \cup fl.add

RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, p) == IF p <= Len(s) /\ IsDigit(s[p]) THEN DigitsEnd(s, p + 1) ELSE p
RECURSIVE NumVal(_, _, _)
\* value saturates (everything above the limit is rejected in the same way)
NumVal(s, p, e) == IF e <= p THEN 0
                   ELSE Min2(1000000, 10 * NumVal(s, p, e - 1) + (s[e - 1] - 48))

(* A quantifier at p, or [ok |-> FALSE] *)
Quant(s, p) ==
  LET c == Ch(s, p)
      base == IF c = 42 THEN [ok |-> TRUE, p |-> p + 1, lo |-> 0, hi |-> -1]
              ELSE IF c = 43 THEN [ok |-> TRUE, p |-> p + 1, lo |-> 1, hi |-> -1]
              ELSE IF c = 63 THEN [ok |-> TRUE, p |-> p + 1, lo |-> 0, hi |-> 1]
              ELSE IF c # 123 THEN [ok |-> FALSE]
              ELSE LET e1 == DigitsEnd(s, p + 1) IN
                   IF e1 = p + 1 THEN [ok |-> FALSE]
                   ELSE LET n1 == NumVal(s, p + 1, e1) IN
                        IF Ch(s, e1) = 125 THEN [ok |-> TRUE, p |-> e1 + 1, lo |-> n1, hi |-> n1]
                        ELSE IF Ch(s, e1) # 44 THEN [ok |-> FALSE]
                        ELSE LET e2 == DigitsEnd(s, e1 + 1) IN
                             IF Ch(s, e2) # 125 THEN [ok |-> FALSE]
                             ELSE IF e2 = e1 + 1 THEN [ok |-> TRUE, p |-> e2 + 1, lo |-> n1, hi |-> -1]
                             ELSE [ok |-> TRUE, p |-> e2 + 1, lo |-> n1, hi |-> NumVal(s, e1 + 1, e2)]
  IN IF ~base.ok THEN base
     ELSE IF Ch(s, base.p) = 63 THEN [base EXCEPT !.p = base.p + 1] @@ [lazy |-> TRUE]
     ELSE base @@ [lazy |-> FALSE]

HexVal(c) == IF IsDigit(c) THEN c - 48
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
RECURSIVE HexEnd(_, _, _)
HexEnd(s, p, lim) == IF p < lim /\ p <= Len(s) /\ HexVal(s[p]) >= 0 THEN HexEnd(s, p + 1, lim) ELSE p
RECURSIVE HexNum(_, _, _)
HexNum(s, p, e) == IF e <= p THEN 0 ELSE Min2(16777216, 16 * HexNum(s, p, e - 1) + HexVal(s[e - 1]))

EscDeny == {48,49,50,51,52,53,54,55,56,57, 99,103,107,108,111,112,117,120,122,
            65,66,67,69,71,75,76,78,80,81,82,85,88,90}

(* A literal character at p: [ok, p, c, esc] ; cls = inside brackets *)
Lit(s, p, cls) ==
  LET c == Ch(s, p) IN
  IF c = -1 THEN Fail(Syn)
  ELSE IF c # BS THEN
     IF (cls /\ c = 93) \/ (~cls /\ c \in {124,91,40,41,46,43,63,42,94,36}) THEN Fail(Syn)
     ELSE [ok |-> TRUE, p |-> p + 1, c |-> c, esc |-> FALSE]
  ELSE LET d == Ch(s, p + 1)
           one(x) == [ok |-> TRUE, p |-> p + 2, c |-> x, esc |-> TRUE] IN
     IF d = -1 THEN Fail(Syn)
     ELSE IF d = 99 THEN                                   \* \cX
        IF IsAlpha(Ch(s, p + 2))
        THEN [ok |-> TRUE, p |-> p + 3, c |-> AsciiLower(s[p + 2]) - 96, esc |-> TRUE] ELSE Fail(Syn)
     ELSE IF d = 97 THEN one(7) ELSE IF d = 98 THEN one(8) ELSE IF d = 101 THEN one(27)
     ELSE IF d = 102 THEN one(12) ELSE IF d = 110 THEN one(10) ELSE IF d = 114 THEN one(13)
     ELSE IF d = 116 THEN one(9) ELSE IF d = 118 THEN one(11)
     ELSE IF d = 120 THEN                                  \* \xHH, \x{H..}
        IF Ch(s, p + 2) = 123 /\ (\E q \in (p + 3)..Len(s) : s[q] = 125) THEN
           LET close == CHOOSE q \in (p + 3)..Len(s) : s[q] = 125 /\ \A r \in (p + 3)..(q - 1) : s[r] # 125
               v == HexNum(s, p + 3, close) IN
           IF close = p + 3 \/ HexEnd(s, p + 3, close) # close \/ v > 1114111 \/ (v >= 55296 /\ v <= 57343)
           THEN Fail(Syn) ELSE [ok |-> TRUE, p |-> close + 1, c |-> v, esc |-> TRUE]
        ELSE LET e == HexEnd(s, p + 2, p + 4) IN
             [ok |-> TRUE, p |-> e, c |-> HexNum(s, p + 2, e), esc |-> TRUE]
     ELSE IF d \in EscDeny THEN Fail(Syn)
     ELSE one(d)

(* \d \s \w \D \S \W \h \H \v \V at p *)
ShortClass(s, p) ==
  IF Ch(s, p) # BS THEN <<>>
  ELSE LET d == Ch(s, p + 1) IN
       CASE d = 100 -> <<"c", "digit", FALSE>> [] d = 68 -> <<"c", "digit", TRUE>>
         [] d = 115 -> <<"c", "space", FALSE>> [] d = 83 -> <<"c", "space", TRUE>>
         [] d = 119 -> <<"c", "word", FALSE>>  [] d = 87 -> <<"c", "word", TRUE>>
         [] d = 104 -> <<"c", "h", FALSE>>     [] d = 72 -> <<"c", "h", TRUE>>
         [] d = 118 -> <<"c", "v", FALSE>>     [] d = 86 -> <<"c", "v", TRUE>>
         [] OTHER -> <<>>

(* \p{Name} \P{Name} at p *)
PropAt(s, p) ==
  IF ~(Ch(s, p) = BS /\ Ch(s, p + 1) \in {112, 80} /\ Ch(s, p + 2) = 123) THEN [ok |-> FALSE]
  ELSE LET hits == {i \in 1..Len(PropNames) : Starts(s, p + 3, PropNames[i][2] \o <<125>>)} IN
       IF hits = {} THEN [ok |-> FALSE]
       ELSE LET i == CHOOSE i \in hits : TRUE IN
            [ok |-> TRUE, p |-> p + 4 + Len(PropNames[i][2]), it |-> <<"p", PropNames[i][1], Ch(s, p + 1) = 80>>]

Posix == << <<"alnum", <<97,108,110,117,109>>>>, <<"alpha", <<97,108,112,104,97>>>>,
            <<"ascii", <<97,115,99,105,105>>>>, <<"blank", <<98,108,97,110,107>>>>,
            <<"cntrl", <<99,110,116,114,108>>>>, <<"digit", <<100,105,103,105,116>>>>,
            <<"graph", <<103,114,97,112,104>>>>, <<"lower", <<108,111,119,101,114>>>>,
            <<"print", <<112,114,105,110,116>>>>, <<"punct", <<112,117,110,99,116>>>>,
            <<"space", <<115,112,97,99,101>>>>, <<"upper", <<117,112,112,101,114>>>>,
            <<"word", <<119,111,114,100>>>>, <<"xdigit", <<120,100,105,103,105,116>>>> >>
(* [:name:] or [:^name:] at p *)
PosixAt(s, p) ==
  IF ~Starts(s, p, <<91, 58>>) THEN [ok |-> FALSE]
  ELSE LET neg == Ch(s, p + 2) = 94
           q == IF neg THEN p + 3 ELSE p + 2
           hits == {i \in 1..Len(Posix) : Starts(s, q, Posix[i][2] \o <<58, 93>>)} IN
       IF hits = {} THEN [ok |-> FALSE]
       ELSE LET i == CHOOSE i \in hits : TRUE IN
            [ok |-> TRUE, p |-> q + Len(Posix[i][2]) + 2, it |-> <<"c", Posix[i][1], neg>>]

(* \Q...\E at p *)
QuoteAt(s, p) ==
  IF ~Starts(s, p, <<BS, 81>>) THEN [ok |-> FALSE]
  ELSE LET ends == {q \in (p + 2)..(Len(s) - 1) : s[q] = BS /\ s[q + 1] = 69} IN
       IF ends = {} THEN [ok |-> FALSE]
       ELSE LET q == CHOOSE q \in ends : \A r \in ends : q <= r IN
            [ok |-> TRUE, p |-> q + 2, cs |-> SubSeq(s, p + 2, q - 1)]

(* Items of a bracketed class from p, up to (not including) its "]". *)
RECURSIVE ClassItems(_, _)
ClassItems(s, p) ==
  LET sc == ShortClass(s, p)
      q == QuoteAt(s, p)
      px == PosixAt(s, p)
      one(it, np) == LET r == ClassItems(s, np) IN
                     IF r.ok THEN [ok |-> TRUE, p |-> r.p, items |-> <<it>> \o r.items] ELSE r
      l1 == Lit(s, p, TRUE)
      isrange == l1.ok /\ Ch(s, l1.p) = 45 /\ Lit(s, l1.p + 1, TRUE).ok
      pr == PropAt(s, p)
  IN IF Ch(s, p) = 93 THEN [ok |-> TRUE, p |-> p, items |-> <<>>]
     ELSE IF sc # <<>> THEN one(sc, p + 2)
     ELSE IF q.ok THEN LET r == ClassItems(s, q.p) IN
                       IF r.ok THEN [ok |-> TRUE, p |-> r.p,
                                     items |-> [i \in 1..Len(q.cs) |-> <<"r", q.cs[i], q.cs[i]>>] \o r.items]
                       ELSE r
     ELSE IF px.ok THEN one(px.it, px.p)
     ELSE IF isrange THEN LET l2 == Lit(s, l1.p + 1, TRUE) IN one(<<"r", l1.c, l2.c>>, l2.p)
     ELSE IF l1.ok THEN one(<<"r", l1.c, l1.c>>, l1.p)
     ELSE IF pr.ok THEN one(pr.it, pr.p)
     ELSE Fail(Syn)

(* A bracketed class starting at p (on "[") *)
BracketAt(s, p, f) ==
  LET neg == Ch(s, p + 1) = 94
      q == IF neg THEN p + 2 ELSE p + 1
      closing == Ch(s, q) = 93
      r == ClassItems(s, IF closing THEN q + 1 ELSE q)
  IN IF ~r.ok THEN r
     ELSE LET items == (IF closing THEN << <<"r", 93, 93>> >> ELSE <<>>) \o r.items IN
          IF items = <<>> THEN Fail(Syn)
          ELSE IF \E i \in 1..Len(items) : items[i][1] = "r" /\ items[i][2] > items[i][3]
               THEN [ok |-> TRUE, p |-> r.p + 1, n |-> [k |-> "bad"], f |-> f]   \* reversed range
               ELSE Done(r.p + 1, NSet(items, neg, "i" \in f), f)

NameStart(c) == IsAlpha(c) \/ c = 95
RECURSIVE NameEnd(_, _)
NameEnd(s, p) == IF IsWord(Ch(s, p)) THEN NameEnd(s, p + 1) ELSE p

(* $ and \Z consume an optional final newline. *)
OptNl(t) == NCat(<<NRep(NLit(10, FALSE), 0, 1, FALSE), NAs(t)>>)
Dot(f) == IF "s" \in f THEN NSet(<<>>, TRUE, FALSE) ELSE NSet(<< <<"r", 10, 10>> >>, TRUE, FALSE)

(* White space under x, and an empty quotation, are not there: a quantifier behind them ("post")    *)
(* belongs to what stands before.                                                                    *)
Nothing == [k |-> "ws"]
RECURSIVE Join(_, _)
Join(a, rest) ==
  LET real == {i \in 1..Len(rest) : rest[i].k # "ws"} IN
  IF a.k \in {"ws", "flags"} \/ real = {} THEN <<a>> \o rest
  ELSE LET j == CHOOSE j \in real : \A i \in real : j <= i
           t == rest[j] IN
       IF t.k # "post" THEN <<a>> \o rest
       ELSE Join(IF a.k = "cat" THEN [a EXCEPT !.xs[Len(a.xs)] = NRep(@, t.lo, t.hi, t.lazy)] ELSE NRep(a, t.lo, t.hi, t.lazy),
                 SubSeq(rest, 1, j - 1) \o SubSeq(rest, j + 1, Len(rest)))

RECURSIVE Expr(_, _, _, _), Concat(_, _, _, _), Atom(_, _, _, _), Group(_, _, _, _)

(* Alternation: inline flags stay in force in the following branches. *)
Expr(s, p, f, d) ==
  LET c == Concat(s, p, f, d) IN
  IF ~c.ok THEN c
  ELSE IF Ch(s, c.p) = 124
       THEN LET r == Expr(s, c.p + 1, c.f, d) IN
            IF ~r.ok THEN r
            ELSE Done(r.p, [k |-> "alt", xs |-> <<c.n>> \o (IF r.n.k = "alt" /\ r.top THEN r.n.xs ELSE <<r.n>>)], r.f)
                 @@ [top |-> TRUE]
       ELSE c @@ [top |-> FALSE]

Stop(s, p) == Ch(s, p) \in {-1, 124, 41}

(* Zero or more atoms. The recursion limit is hit by any attempt to go one group deeper than   *)
(* allowed, including the attempt made when the atom turns out not to be a group.               *)
Concat(s, p, f, d) ==
  LET a == Atom(s, p, f, d) IN
  IF ~a.ok THEN IF a.e # "none" THEN a ELSE Done(p, NEmpty, f) @@ [seq |-> FALSE]
  ELSE LET r == Concat(s, a.p, a.f, d) IN
       IF ~r.ok THEN r
       ELSE Done(r.p, IF r.n.k = "empty" /\ r.p = a.p THEN a.n
                      ELSE NCat(Join(a.n, IF r.n.k = "cat" /\ r.seq THEN r.n.xs ELSE <<r.n>>)), r.f)
            @@ [seq |-> r.p # a.p]

(* One atom with its quantifier. A failure "none" means: no atom starts here. *)
Atom(s, p, f, d) ==
  LET c == Ch(s, p)
      q == QuoteAt(s, p)
      fl == IF Starts(s, p, <<40, 63>>) THEN Flags(s, p + 2) ELSE [p |-> 0, add |-> {}, rem |-> {}]
      isflags == fl.p > 0 /\ Ch(s, fl.p) = 41
      ci == "i" \in f
      sc == ShortClass(s, p)
      pr == PropAt(s, p)
      lit == Lit(s, p, FALSE)
      \* the atom: kind "quote" keeps the characters apart since a quantifier binds to the last one
      base ==
        IF q.ok THEN Done(q.p, IF q.cs = <<>> THEN Nothing
                               ELSE NCat([i \in 1..Len(q.cs) |-> NLit(q.cs[i], ci)]), f)
        ELSE IF isflags THEN Done(fl.p + 1, [k |-> "flags", bad |-> fl.add = {} /\ fl.rem = {}],
                                  ApplyFlags(f, fl))
        ELSE IF d + 1 > MaxDepth THEN Fail("ExceededDepthLimit")
        ELSE IF c = 40 THEN Group(s, p, f, d + 1)
        ELSE IF Starts(s, p, <<BS, 98>>) THEN Done(p + 2, NAs("b"), f)
        ELSE IF Starts(s, p, <<BS, 66>>) THEN Done(p + 2, NAs("B"), f)
        ELSE IF c = 94 THEN Done(p + 1, NAs(IF "m" \in f THEN "^m" ELSE "^"), f)
        ELSE IF c = 36 THEN Done(p + 1, OptNl(IF "m" \in f THEN "$m" ELSE "$"), f)
        ELSE IF Starts(s, p, <<BS, 65>>) THEN Done(p + 2, NAs("^"), f)
        ELSE IF Starts(s, p, <<BS, 122>>) THEN Done(p + 2, NAs("$"), f)
        ELSE IF Starts(s, p, <<BS, 90>>) THEN Done(p + 2, OptNl("$"), f)
        ELSE IF c = 46 THEN Done(p + 1, Dot(f), f)
        ELSE IF sc # <<>> THEN Done(p + 2, NSet(<<sc>>, FALSE, ci), f)
        ELSE IF c = 91 THEN LET b == BracketAt(s, p, f) IN IF b.ok THEN b ELSE Fail("none")
        ELSE IF pr.ok THEN Done(pr.p, NSet(<<pr.it>>, FALSE, ci), f)
        ELSE IF lit.ok
             THEN Done(lit.p, IF "x" \in f /\ ~lit.esc /\ IsSpaceA(lit.c) THEN Nothing
                              ELSE NLit(lit.c, ci), f)
        ELSE Fail("none")
  IN IF ~base.ok THEN base
     ELSE LET qt == Quant(s, base.p) IN
          IF ~qt.ok THEN base
          ELSE LET over == qt.lo > MaxQuant \/ qt.hi > MaxQuant
                   rev == qt.hi >= 0 /\ qt.lo > qt.hi
                   n == IF over THEN [k |-> "over"]
                        ELSE IF rev \/ base.n.k \in {"flags", "bad"} THEN [k |-> "bad"]
                        ELSE IF base.n.k = "ws" THEN [k |-> "post", lo |-> qt.lo, hi |-> qt.hi, lazy |-> qt.lazy]
                        ELSE IF q.ok /\ Len(q.cs) > 1
                             THEN [base.n EXCEPT !.xs[Len(q.cs)] = NRep(@, qt.lo, qt.hi, qt.lazy)]
                        ELSE NRep(base.n, qt.lo, qt.hi, qt.lazy)
               IN Done(qt.p, n, base.f)

Close(s, r, f) == IF ~r.ok THEN r
                  ELSE IF Ch(s, r.p) # 41 THEN Fail("none")
                  ELSE Done(r.p + 1, [k |-> "grp", x |-> r.n], f)
Group(s, p, f, d) ==
  IF Ch(s, p + 1) # 63 THEN Close(s, Expr(s, p + 1, f, d), f)
  ELSE LET fl == Flags(s, p + 2)
           named(q, endc) == IF ~NameStart(Ch(s, q)) THEN Fail("none")
                             ELSE LET e == NameEnd(s, q) IN
                                  IF Ch(s, e) # endc THEN Fail("none")
                                  ELSE Close(s, Expr(s, e + 1, f, d), f) IN
       IF Ch(s, fl.p) = 58 THEN Close(s, Expr(s, fl.p + 1, ApplyFlags(f, fl), d), f)
       ELSE IF Ch(s, p + 2) = 60 THEN named(p + 3, 62)
       ELSE IF Ch(s, p + 2) = 80 /\ Ch(s, p + 3) = 60 THEN named(p + 4, 62)
       ELSE IF Ch(s, p + 2) = 39 THEN named(p + 3, 39)
       ELSE Fail("none")

RECURSIVE Has(_, _)
Has(n, kind) ==
  \/ n.k = kind
  \/ n.k = "flags" /\ kind = "bad" /\ n.bad
  \/ n.k \in {"cat", "alt"} /\ \E i \in 1..Len(n.xs) : Has(n.xs[i], kind)
  \/ n.k \in {"rep", "grp"} /\ Has(n.x, kind)

(* Can a match be empty? (Assertions count as possible, whatever stands around them.) *)
RECURSIVE Nullable(_)
Nullable(n) ==
  CASE n.k \in {"empty", "as", "flags", "ws"} -> TRUE
    [] n.k \in {"lit", "set"} -> FALSE
    [] n.k = "cat" -> \A i \in 1..Len(n.xs) : Nullable(n.xs[i])
    [] n.k = "alt" -> \E i \in 1..Len(n.xs) : Nullable(n.xs[i])
    [] n.k = "rep" -> n.lo = 0 \/ n.hi = 0 \/ Nullable(n.x)
    [] n.k = "grp" -> Nullable(n.x)

(* Size of the compiled pattern in bytes. The size limit belongs to the interface, the exact size of  *)
(* a pattern does not: the model only knows bounds. Saturating arithmetic.                           *)
SizeLimit == 1000000
SizeCap == 20000000
AddW(a, b) == Min2(SizeCap, a + b)
MulW(n, a) == IF a = 0 \/ n = 0 THEN 0 ELSE IF n > SizeCap \div a THEN SizeCap ELSE n * a
RECURSIVE SizeHi(_), SumHi(_), SizeLo(_), SumLo(_), LeastLo(_)
SumHi(xs) == IF xs = <<>> THEN 0 ELSE AddW(SizeHi(Head(xs)), SumHi(Tail(xs)))
SizeHi(n) ==
  CASE n.k \in {"empty", "flags", "ws", "as"} -> 200
    [] n.k = "lit" -> 400
    [] n.k = "set" -> IF \E i \in 1..Len(n.items) : n.items[i][1] = "p"
                      THEN 60000 ELSE 2500
    [] n.k = "cat" -> SumHi(n.xs)
    [] n.k = "alt" -> AddW(200 + 100 * Len(n.xs), SumHi(n.xs))
    [] n.k = "grp" -> AddW(200, SizeHi(n.x))
    [] n.k = "rep" -> AddW(400, MulW(IF n.hi < 0 THEN n.lo + 1 ELSE n.hi, AddW(100, SizeHi(n.x))))
    [] OTHER -> 0
SumLo(xs) == IF xs = <<>> THEN 0 ELSE AddW(SizeLo(Head(xs)), SumLo(Tail(xs)))
LeastLo(xs) == IF Len(xs) = 1 THEN SizeLo(xs[1]) ELSE Min2(SizeLo(Head(xs)), LeastLo(Tail(xs)))
SizeLo(n) ==
  CASE n.k \in {"empty", "flags", "ws", "as"} -> 0
    [] n.k \in {"lit", "set"} -> 16
    [] n.k = "cat" -> SumLo(n.xs)
    [] n.k = "alt" -> LeastLo(n.xs)
    [] n.k = "grp" -> SizeLo(n.x)
    [] n.k = "rep" -> MulW(n.lo, SizeLo(n.x))
    [] OTHER -> 0

(* Parse and validate. err: the verdict when the pattern is small enough; verdicts: the possible      *)
(* verdicts (an oversized pattern is refused as TooComplex, before the check for empty matches).      *)
Compile(pat) ==
  LET r == Expr(pat, 1, {}, 0) 
      no(e) == [err |-> e, verdicts |-> {e}] IN
  IF ~r.ok THEN no(IF r.e = "none" THEN Syn ELSE r.e)
  ELSE IF r.p # Len(pat) + 1 THEN no(Syn)
  ELSE IF Has(r.n, "over") THEN no("ExceededQuantifierLimit")
  ELSE IF Has(r.n, "bad") \/ Has(r.n, "post") THEN no(Syn)
  ELSE LET e == IF Nullable(r.n) THEN "MatchesEmptyString" ELSE "ok" IN
       [err |-> e, n |-> r.n,
        verdicts |-> IF SizeHi(r.n) <= SizeLimit THEN {e}
                     ELSE IF SizeLo(r.n) > SizeLimit THEN {"TooComplex"} ELSE {e, "TooComplex"}]

-----------------------------------------------------------------------------
(* Matching. Ends(n, s, i): the positions where a match of n starting at i  *)
(* can end, most preferred first, without repetition.                        *)
Holds(t, s, i) ==
  CASE t = "b" -> Boundary(s, i)
    [] t = "B" -> ~Boundary(s, i)
    [] t = "^" -> i = 0
    [] t = "$" -> i = Len(s)
    [] t = "^m" -> i = 0 \/ s[i] = 10
    [] t = "$m" -> i = Len(s) \/ s[i + 1] = 10

One(n, c) == IF n.k = "lit" THEN c = n.c \/ (n.ci /\ Fold(c) = Fold(n.c)) ELSE SetHas(n, c)
\* how many characters from position i on are of kind n, at most hi (hi < 0: any number)
Run(n, s, i, hi) ==
  LET last == IF hi < 0 THEN Len(s) ELSE Min2(Len(s), i + hi)
      stop == {j \in (i + 1)..last : ~One(n, s[j])} IN
  IF stop = {} THEN last - i ELSE (CHOOSE j \in stop : \A q \in stop : j <= q) - 1 - i

RECURSIVE Ends(_, _, _), CatEnds(_, _, _, _), FromEach(_, _, _, _), AltEnds(_, _, _, _),
          RepWalk(_, _, _, _, _, _), RepEach(_, _, _, _, _, _, _, _, _)
Ends(n, s, i) ==
  CASE n.k \in {"empty", "flags", "ws"} -> <<i>>
    [] n.k \in {"lit", "set"} -> IF i < Len(s) /\ One(n, s[i + 1]) THEN <<i + 1>> ELSE <<>>
    [] n.k = "as"  -> IF Holds(n.t, s, i) THEN <<i>> ELSE <<>>
    [] n.k = "cat" -> CatEnds(n.xs, 1, s, <<i>>)
    [] n.k = "alt" -> Dedup(AltEnds(n.xs, 1, s, i))
    [] n.k = "grp" -> Ends(n.x, s, i)
    [] n.k = "rep" /\ n.x.k \in {"lit", "set"} ->
         LET m == Run(n.x, s, i, n.hi) IN              \* one character each time: the walk is a straight line
         IF m < n.lo THEN <<>>
         ELSE [k \in 1..(m - n.lo + 1) |-> IF n.lazy THEN i + n.lo + k - 1 ELSE i + m - k + 1]
    [] n.k = "rep" -> RepWalk(n, n.lo, n.hi, s, i, [out |-> <<>>, seen |-> {}]).out

(* es: where the first j - 1 elements can end, in order of preference *)
CatEnds(xs, j, s, es) ==
  IF j > Len(xs) \/ es = <<>> THEN es
  ELSE CatEnds(xs, j + 1, s, Dedup(FromEach(xs[j], s, es, 1)))
FromEach(x, s, es, m) == IF m > Len(es) THEN <<>> ELSE Ends(x, s, es[m]) \o FromEach(x, s, es, m + 1)
AltEnds(xs, j, s, i) == IF j > Len(xs) THEN <<>> ELSE Ends(xs[j], s, i) \o AltEnds(xs, j + 1, s, i)

(* Repetition: a walk over (iterations left, position), each taken once, in order of preference. *)
AddEnd(acc, i) == IF \E m \in 1..Len(acc.out) : acc.out[m] = i THEN acc
                  ELSE [acc EXCEPT !.out = Append(@, i)]
RepWalk(n, lo, hi, s, i, acc) ==
  IF <<lo, hi, i>> \in acc.seen THEN acc
  ELSE LET a0 == [acc EXCEPT !.seen = @ \cup {<<lo, hi, i>>}]
           a1 == IF hi = 0 \/ (lo = 0 /\ n.lazy) THEN AddEnd(a0, i) ELSE a0
           a2 == IF hi = 0 THEN a1
                 ELSE RepEach(n, Max2(lo - 1, 0), IF hi < 0 THEN hi ELSE hi - 1, s, Ends(n.x, s, i), 1, i, lo, a1)
       IN IF lo = 0 /\ hi # 0 /\ ~n.lazy THEN AddEnd(a2, i) ELSE a2
\* an optional iteration has to make progress
RepEach(n, lo, hi, s, es, m, i, was, acc) ==
  IF m > Len(es) THEN acc
  ELSE LET a == IF es[m] = i /\ was = 0 THEN acc ELSE RepWalk(n, lo, hi, s, es[m], acc) IN
       RepEach(n, lo, hi, s, es, m + 1, i, was, a)

(* Leftmost match at or after position i: <<start, end>> or <<>>. *)
(* (In long strings, stretches without a match are skipped at once: TLC is slow in deep recursions.)  *)
RECURSIVE SeekNear(_, _, _, _)
RECURSIVE SeekFar(_, _, _)
SeekNear(n, s, i, lim) ==
  IF i > Len(s) THEN <<>>
  ELSE IF i >= lim THEN SeekFar(n, s, i)
  ELSE LET e == Ends(n, s, i) IN IF e # <<>> THEN <<i, e[1]>> ELSE SeekNear(n, s, i + 1, lim)
SeekFar(n, s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF \E p \in i..(IF i + 128 > Len(s) THEN Len(s) ELSE i + 128) : Ends(n, s, p) # <<>> THEN SeekNear(n, s, i, i + 129)
  ELSE SeekFar(n, s, i + 129)
Find(n, s, i) == SeekNear(n, s, i, i + 16)

(* All successive matches: the next search starts where the previous match ended. *)
RECURSIVE FindAll(_, _, _)
FindAll(n, s, i) ==
  LET m == Find(n, s, i) IN
  IF m = <<>> THEN <<>> ELSE <<m>> \o FindAll(n, s, m[2])
=============================================================================
