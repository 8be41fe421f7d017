------------------------------- MODULE Validators -------------------------------
(***************************************************************************)
(* Secondary validators: which matched texts are kept. Texts are sequences  *)
(* of code points. 32 bit numbers (CRC) are pairs of 16 bit halves; 64 bit    *)
(* numbers (expiry times) are sequences of decimal digits.                    *)
(***************************************************************************)
EXTENDS Text, Bitwise, TLC

Digits(m) == LET d == SelectSeq(m, IsDigit) IN [k \in 1..Len(d) |-> d[k] - 48]

RECURSIVE SumF(_, _)
SumF(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumF(f, k - 1)

(* value of a sequence of digits modulo n *)
RECURSIVE ModSeq(_, _, _)
ModSeq(d, k, n) == IF k = 0 THEN 0 ELSE (10 * ModSeq(d, k - 1, n) + d[k]) % n

-----------------------------------------------------------------------------
(* Luhn: every second digit from the right doubled; the whole sum is a multiple of ten. *)
LuhnOk(m) ==
  LET d == Digits(m)
      v(k) == LET fromEnd == Len(d) - k IN
              IF fromEnd % 2 = 0 THEN d[k] ELSE IF d[k] > 4 THEN 2 * d[k] - 9 ELSE 2 * d[k] IN
  Len(d) > 0 /\ SumF([k \in 1..Len(d) |-> v(k)], Len(d)) % 10 = 0

(* Chinese resident identity number: 17 digits and an ISO 7064 MOD 11-2 check character. *)
ChinCoef == <<7, 9, 10, 5, 8, 4, 2, 1, 6, 3, 7, 9, 10, 5, 8, 4, 2>>
ChineseOk(m) ==
  /\ Len(m) = 18 /\ \A k \in 1..17 : IsDigit(m[k])
  /\ LET s == SumF([k \in 1..17 |-> ChinCoef[k] * (m[k] - 48)], 17) % 11
         want == (12 - s) % 11 IN
     IF want = 10 THEN m[18] \in {88, 120} ELSE m[18] = 48 + want

(* NHS number: ten digits, weights 10 down to 1, the sum is a multiple of eleven. *)
NhsOk(m) ==
  LET d == Digits(m) IN Len(d) = 10 /\ SumF([k \in 1..10 |-> (11 - k) * d[k]], 10) % 11 = 0

(* French NIR: 13 digits and a two digit key, 97 minus the number modulo 97. *)
NirOk(m) ==
  LET d == Digits(m) IN
  Len(d) = 15 /\ 97 - ModSeq(d, 13, 97) = 10 * d[14] + d[15]

-----------------------------------------------------------------------------
(* Github tokens: the last "_" separated part is base 62, its last six characters are the CRC-32    *)
(* of what precedes them, in base 62 with leading zeros.                                             *)
Shr1(x) == [hi |-> x.hi \div 2, lo |-> (x.lo \div 2) + (IF x.hi % 2 = 1 THEN 32768 ELSE 0)]
XorP(x) == [hi |-> x.hi ^^ 60856, lo |-> x.lo ^^ 33568]        \* polynomial EDB88320
RECURSIVE Bits8(_, _)
Bits8(x, n) == IF n = 0 THEN x ELSE Bits8(IF x.lo % 2 = 1 THEN XorP(Shr1(x)) ELSE Shr1(x), n - 1)
RECURSIVE CrcFrom(_, _, _)
CrcFrom(s, k, x) == IF k > Len(s) THEN x ELSE CrcFrom(s, k + 1, Bits8([x EXCEPT !.lo = @ ^^ s[k]], 8))
Crc32(s) == LET x == CrcFrom(s, 1, [hi |-> 65535, lo |-> 65535]) IN [hi |-> x.hi ^^ 65535, lo |-> x.lo ^^ 65535]

B62(d) == IF d < 10 THEN 48 + d ELSE IF d < 36 THEN 65 + d - 10 ELSE 97 + d - 36
RECURSIVE Base62(_, _)
Base62(x, n) ==
  IF n = 0 THEN <<>>
  ELSE LET r == x.hi % 62
           t == r * 65536 + x.lo IN
       Base62([hi |-> x.hi \div 62, lo |-> t \div 62], n - 1) \o <<B62(t % 62)>>

LastPart(m, sep) == LET ks == {k \in 1..Len(m) : m[k] = sep}
                        k == IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : j <= k IN
                    Sub(m, k, Len(m))
GithubOk(m) ==
  LET p == LastPart(m, 95) IN
  /\ \E k \in 1..Len(m) : m[k] = 95
  /\ \A k \in 1..Len(p) : IsAlnum(p[k])
  /\ Len(p) > 6
  /\ Sub(p, Len(p) - 6, Len(p)) = Base62(Crc32(Sub(p, 0, Len(p) - 6)), 6)

-----------------------------------------------------------------------------
(* IBAN: country, two check digits, account number in the country's format; the rearranged number   *)
(* is 1 modulo 97. Formats of the countries the drivers use; any other prefix counts as unknown.     *)
IbanFormat(cc) ==
  CASE cc = <<68, 69>> -> Reps("n", 18)                                              \* DE
    [] cc = <<66, 69>> -> Reps("n", 12)                                              \* BE
    [] cc = <<71, 66>> -> Reps("a", 4) \o Reps("n", 14)                              \* GB
    [] cc = <<78, 76>> -> Reps("a", 4) \o Reps("n", 10)                              \* NL
    [] cc = <<70, 82>> -> Reps("n", 10) \o Reps("c", 11) \o Reps("n", 2)             \* FR
    [] cc = <<78, 79>> -> Reps("n", 11)                                              \* NO
    [] OTHER -> <<>>
IbanChar(t, c) == CASE t = "n" -> IsDigit(c) [] t = "a" -> IsUpper(c) [] t = "c" -> IsUpper(c) \/ IsDigit(c)
RECURSIVE IbanMod(_, _)
IbanMod(s, k) == IF k = 0 THEN 0
                 ELSE LET r == IbanMod(s, k - 1) IN
                      IF IsDigit(s[k]) THEN (10 * r + s[k] - 48) % 97 ELSE (100 * r + s[k] - 55) % 97
\* letters and digits of any script survive the filter; only ASCII ones can be part of an IBAN
Ignored(c) == (c < 128 /\ ~IsAlnum(c)) \/ c \in {160, 8212, 8217, 8230, 12288}      \* and other marks and spaces
IbanOk(m) ==
  LET t == SelectSeq(m, LAMBDA c : ~Ignored(c))
      s == [k \in 1..Len(t) |-> IF k > 4 /\ IsLower(t[k]) THEN t[k] - 32 ELSE t[k]] IN     \* the account number in any case
  /\ Len(s) >= 4 /\ IsDigit(s[3]) /\ IsDigit(s[4])
  /\ LET f == IbanFormat(Sub(s, 0, 2)) IN
     /\ f # <<>> /\ Len(s) = Len(f) + 4
     /\ \A k \in 1..Len(f) : IbanChar(f[k], s[k + 4])
     /\ IbanMod(Sub(s, 4, Len(s)) \o Sub(s, 0, 4), Len(s)) = 1

-----------------------------------------------------------------------------
(* JWT: three dot separated segments; the first two are base64url JSON documents; an expiry time,   *)
(* if the second is an object with one, must be an integer in the future.                            *)
B64(c) == IF IsUpper(c) THEN c - 65 ELSE IF IsLower(c) THEN c - 71 ELSE IF IsDigit(c) THEN c + 4
          ELSE IF c = 45 THEN 62 ELSE IF c = 95 THEN 63 ELSE -1
(* bytes of an unpadded base64url text, or [ok |-> FALSE] *)
RECURSIVE B64Bytes(_, _)
B64Bytes(s, k) ==
  LET left == Len(s) - k + 1
      v(j) == B64(s[k + j]) IN
  IF left = 0 THEN [ok |-> TRUE, b |-> <<>>]
  ELSE IF left = 1 THEN [ok |-> FALSE, b |-> <<>>]
  ELSE IF left = 2 THEN [ok |-> v(1) % 16 = 0, b |-> <<4 * v(0) + v(1) \div 16>>]
  ELSE IF left = 3 THEN [ok |-> v(2) % 4 = 0,
                         b |-> <<4 * v(0) + v(1) \div 16, 16 * (v(1) % 16) + v(2) \div 4>>]
  ELSE LET r == B64Bytes(s, k + 4) IN
       [ok |-> r.ok, b |-> <<4 * v(0) + v(1) \div 16, 16 * (v(1) % 16) + v(2) \div 4,
                             64 * (v(2) % 4) + v(3)>> \o r.b]
B64Decode(s) == IF \E k \in 1..Len(s) : B64(s[k]) < 0 THEN [ok |-> FALSE, b |-> <<>>] ELSE B64Bytes(s, 1)

(* A JSON reader over ASCII bytes. A value is [t, ...]; numbers keep their text. *)
JC(b, p) == IF p <= Len(b) THEN b[p] ELSE -1
RECURSIVE Ws(_, _)
Ws(b, p) == IF JC(b, p) \in {32, 9, 10, 13} THEN Ws(b, p + 1) ELSE p
JFail == [ok |-> FALSE, p |-> 0, v |-> [t |-> "none"]]
JOk(p, v) == [ok |-> TRUE, p |-> p, v |-> v]
RECURSIVE JDigits(_, _)
JDigits(b, p) == IF JC(b, p) >= 48 /\ JC(b, p) <= 57 THEN JDigits(b, p + 1) ELSE p
JNum(b, p) ==
  LET neg == JC(b, p) = 45
      q == IF neg THEN p + 1 ELSE p
      e == JDigits(b, q)
      frac == JC(b, e) = 46
      f == IF frac THEN JDigits(b, e + 1) ELSE e
      ex == JC(b, f) \in {69, 101}
      g0 == IF ex THEN (IF JC(b, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1) ELSE f
      g == IF ex THEN JDigits(b, g0) ELSE f IN
  IF e = q \/ (JC(b, q) = 48 /\ e > q + 1) \/ (frac /\ f = e + 1) \/ (ex /\ g = g0) THEN JFail
  ELSE JOk(g, [t |-> "num", neg |-> neg, int |-> ~frac /\ ~ex, d |-> [k \in 1..(e - q) |-> b[q + k - 1] - 48]])
(* strings: escapes are checked and kept as they are, except that a plain character escape counts as its character *)
JHex(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
RECURSIVE JStr(_, _, _)
JStr(b, p, acc) ==
  LET c == JC(b, p) IN
  IF c = -1 \/ c < 32 THEN JFail
  ELSE IF c = 34 THEN JOk(p + 1, [t |-> "str", s |-> acc])
  ELSE IF c = 92 THEN
     LET d == JC(b, p + 1) IN
     IF d \in {34, 92, 47} THEN JStr(b, p + 2, Append(acc, d))
     ELSE IF d \in {98, 102, 110, 114, 116} THEN JStr(b, p + 2, Append(acc, 0))
     ELSE IF d = 117 /\ \A k \in 2..5 : JC(b, p + k) >= 0 /\ JHex(JC(b, p + k))
          THEN JStr(b, p + 6, Append(acc, 0))
     ELSE JFail
  ELSE JStr(b, p + 1, Append(acc, c))
JWord(b, p, w) == p + Len(w) - 1 <= Len(b) /\ SubSeq(b, p, p + Len(w) - 1) = w
RECURSIVE JVal(_, _, _), JArr(_, _, _), JObj(_, _, _, _)
JVal(b, p0, depth) ==
  LET p == Ws(b, p0)
      c == JC(b, p) IN
  IF c = 34 THEN JStr(b, p + 1, <<>>)
  ELSE IF c = 45 \/ (c >= 48 /\ c <= 57) THEN JNum(b, p)
  ELSE IF JWord(b, p, <<116, 114, 117, 101>>) THEN JOk(p + 4, [t |-> "lit"])
  ELSE IF JWord(b, p, <<102, 97, 108, 115, 101>>) THEN JOk(p + 5, [t |-> "lit"])
  ELSE IF JWord(b, p, <<110, 117, 108, 108>>) THEN JOk(p + 4, [t |-> "lit"])
  ELSE IF c = 91 THEN IF JC(b, Ws(b, p + 1)) = 93 THEN JOk(Ws(b, p + 1) + 1, [t |-> "arr"]) ELSE JArr(b, p + 1, depth + 1)
  ELSE IF c = 123 THEN IF JC(b, Ws(b, p + 1)) = 125 THEN JOk(Ws(b, p + 1) + 1, [t |-> "obj", m |-> <<>>])
                       ELSE JObj(b, p + 1, <<>>, depth + 1)
  ELSE JFail
JArr(b, p, depth) ==
  LET v == JVal(b, p, depth)
      q == Ws(b, v.p) IN
  IF ~v.ok THEN JFail
  ELSE IF JC(b, q) = 44 THEN JArr(b, q + 1, depth)
  ELSE IF JC(b, q) = 93 THEN JOk(q + 1, [t |-> "arr"]) ELSE JFail
JObj(b, p0, m, depth) ==
  LET p == Ws(b, p0) IN
  IF JC(b, p) # 34 THEN JFail
  ELSE LET key == JStr(b, p + 1, <<>>)
           q == Ws(b, key.p) IN
       IF ~key.ok \/ JC(b, q) # 58 THEN JFail
       ELSE LET v == JVal(b, q + 1, depth)
                z == Ws(b, v.p)
                m2 == Append(m, [k |-> key.v.s, v |-> v.v]) IN
            IF ~v.ok THEN JFail
            ELSE IF JC(b, z) = 44 THEN JObj(b, z + 1, m2, depth)
            ELSE IF JC(b, z) = 125 THEN JOk(z + 1, [t |-> "obj", m |-> m2]) ELSE JFail
JsonDoc(b) == LET v == JVal(b, 1, 0) IN
              IF v.ok /\ Ws(b, v.p) = Len(b) + 1 THEN v ELSE JFail

RECURSIVE SplitOn(_, _, _)
SplitOn(s, sep, cur) == IF s = <<>> THEN <<cur>>
                        ELSE IF Head(s) = sep THEN <<cur>> \o SplitOn(Tail(s), sep, <<>>)
                        ELSE SplitOn(Tail(s), sep, Append(cur, Head(s)))

NatLess(a, b) ==      \* a < b for digit sequences without leading zeros
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
MaxI64 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
(* The time the trace is judged, some minutes after the code ran: the drivers use no expiry times in between. *)
RECURSIVE DecDigits(_)
DecDigits(n) == IF n < 10 THEN <<n>> ELSE DecDigits(n \div 10) \o <<n % 10>>
Now == DecDigits(JavaTime)
ExpKey == <<101, 120, 112>>
JwtOk(m) ==
  LET segs == SplitOn(m, 46, <<>>) IN
  /\ Len(segs) = 3
  /\ LET h == B64Decode(segs[1])
         p == B64Decode(segs[2]) IN
     /\ h.ok /\ p.ok
     /\ JsonDoc(h.b).ok
     /\ LET d == JsonDoc(p.b) IN
        /\ d.ok
        /\ LET exps == IF d.v.t = "obj" THEN SelectSeq(d.v.m, LAMBDA e : e.k = ExpKey) ELSE <<>>
               v == exps[Len(exps)].v IN
           \/ exps = <<>>
           \/ /\ v.t = "num" /\ v.int /\ ~v.neg
              /\ ~NatLess(MaxI64, v.d)
              /\ NatLess(Now, v.d)

-----------------------------------------------------------------------------
ValidMatch(v, m) ==
  CASE v = "" -> TRUE
    [] v = "luhn" -> LuhnOk(m)
    [] v = "chinese" -> ChineseOk(m)
    [] v = "github" -> GithubOk(m)
    [] v = "nhs" -> NhsOk(m)
    [] v = "iban" -> IbanOk(m)
    [] v = "nir" -> NirOk(m)
    [] v = "jwt" -> JwtOk(m)
=================================================================================
