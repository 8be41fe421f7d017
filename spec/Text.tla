---------------------------------- MODULE Text ----------------------------------
(***************************************************************************)
(* Strings are sequences of Unicode code points. Positions are the gaps    *)
(* between characters, 0..Len(s).                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

ValuesOf(f) == {f[x] : x \in DOMAIN f}

(* UTF-8 / UTF-16 length of one code point *)
U8(c)  == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
U16(c) == IF c < 65536 THEN 1 ELSE 2

(* offset of position i of s in the given encoding *)
Off8(s, i)  == FoldLeft(LAMBDA a, c : a + U8(c), 0, SubSeq(s, 1, i))
Off16(s, i) == FoldLeft(LAMBDA a, c : a + U16(c), 0, SubSeq(s, 1, i))
Off(enc, s, i) == IF enc = "utf16" THEN Off16(s, i) ELSE Off8(s, i)
Width(enc, s) == Off(enc, s, Len(s))

Sub(s, i, j) == SubSeq(s, i + 1, j)          \* characters between positions i and j

IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)
IsWord(c)  == IsAlnum(c) \/ c = 95
IsSpaceA(c) == c \in {9, 10, 11, 12, 13, 32}
AsciiLower(c) == IF IsUpper(c) THEN c + 32 ELSE c

(* Simple case folding, for ASCII and for the non-ASCII letters the drivers use. *)
Fold(c) ==
  IF IsUpper(c) THEN c + 32
  ELSE CASE c = 201 -> 233          \* É é
         [] c = 200 -> 232          \* È è
         [] c = 8490 -> 107         \* KELVIN SIGN folds with k
         [] c = 383 -> 115          \* LONG S folds with s
         [] c = 916 -> 948          \* Δ δ
         [] OTHER -> c
FoldClass(c) ==
  LET f == Fold(c) IN
  {f} \cup (IF IsLower(f) THEN {f - 32} ELSE {})
      \cup (CASE f = 233 -> {201} [] f = 232 -> {200} [] f = 107 -> {8490}
              [] f = 115 -> {383} [] f = 948 -> {916} [] OTHER -> {})

(* ASCII word boundary at position i *)
WordAt(s, i) == i >= 1 /\ i <= Len(s) /\ IsWord(s[i])
Boundary(s, i) == WordAt(s, i) # WordAt(s, i + 1)

(* Rust's char::is_whitespace, for the characters the drivers use *)
IsWhite(c) == IsSpaceA(c) \/ c \in {133, 160, 8195, 8232, 12288}

RECURSIVE DropWhile(_, _)
DropWhile(P(_), s) == IF s = <<>> THEN s ELSE IF P(Head(s)) THEN DropWhile(P, Tail(s)) ELSE s
RECURSIVE DropEndWhile(_, _)
DropEndWhile(P(_), s) == IF s = <<>> THEN s
                         ELSE IF P(s[Len(s)]) THEN DropEndWhile(P, SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == DropEndWhile(IsWhite, DropWhile(IsWhite, s))

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

Reps(x, n) == [i \in 1..n |-> x]

RECURSIVE Uniq(_, _)
Uniq(s, seen) == IF s = <<>> THEN <<>>
                 ELSE IF Head(s) \in seen THEN Uniq(Tail(s), seen)
                 ELSE <<Head(s)>> \o Uniq(Tail(s), seen \cup {Head(s)})
Dedup(s) == IF Cardinality(ValuesOf(s)) = Len(s) THEN s ELSE Uniq(s, {})
=================================================================================
