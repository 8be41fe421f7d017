---------------------------------- MODULE Wire ----------------------------------
(***************************************************************************)
(* The byte format of the bindings. An event is a sequence of                 *)
(*   0 len bytes    enter the field of that name                              *)
(*   1 u32          enter the element of that index                           *)
(*   2              leave                                                     *)
(*   3 len bytes    a string at the current place                             *)
(* with big endian 32 bit lengths. The response is empty when nothing matched, *)
(* else a sequence of                                                        *)
(*   4 path (0 / 1 as above) 3 len bytes     the new text of a string          *)
(*   5 u32 len bytes len bytes u32 u32 i32   a match: rule, path, replacement   *)
(*                                          type, start, end, shift           *)
(***************************************************************************)
EXTENDS Text

(* 32 bit big endian at 1-based index i; -1 for values beyond 2^31 *)
U32(b, i) == IF b[i] >= 128 THEN -1 ELSE ((b[i] * 256 + b[i + 1]) * 256 + b[i + 2]) * 256 + b[i + 3]
I32(b, i) == (((IF b[i] >= 128 THEN b[i] - 256 ELSE b[i]) * 256 + b[i + 1]) * 256 + b[i + 2]) * 256 + b[i + 3]

(* UTF-8, every maximal ill-formed part replaced by U+FFFD (as Unicode recommends) *)
Cont(x) == x >= 128 /\ x <= 191
Need(x) == IF x >= 194 /\ x <= 223 THEN 1 ELSE IF x >= 224 /\ x <= 239 THEN 2 ELSE IF x >= 240 /\ x <= 244 THEN 3 ELSE 0
Second(x, y) == CASE x = 224 -> y >= 160 /\ y <= 191
                  [] x = 237 -> y >= 128 /\ y <= 159
                  [] x = 240 -> y >= 144 /\ y <= 191
                  [] x = 244 -> y >= 128 /\ y <= 143
                  [] OTHER -> Cont(y)
Lead(x) == CASE Need(x) = 1 -> x - 192 [] Need(x) = 2 -> x - 224 [] Need(x) = 3 -> x - 240
RECURSIVE Utf8(_, _, _)
Utf8(b, i, acc) ==                    \* acc: decoded so far
  IF i > Len(b) THEN acc
  ELSE LET x == b[i]
           n == Need(x)
           good == IF n = 0 \/ i + 1 > Len(b) THEN 0
                   ELSE IF ~Second(x, b[i + 1]) THEN 0
                   ELSE IF n = 1 \/ i + 2 > Len(b) THEN 1
                   ELSE IF ~Cont(b[i + 2]) THEN 1
                   ELSE IF n = 2 \/ i + 3 > Len(b) THEN 2
                   ELSE IF ~Cont(b[i + 3]) THEN 2 ELSE 3 IN       \* continuation bytes that fit
       IF x < 128 THEN Utf8(b, i + 1, Append(acc, x))
       ELSE IF n = 0 THEN Utf8(b, i + 1, Append(acc, 65533))
       ELSE IF good < n THEN Utf8(b, i + 1 + good, Append(acc, 65533))
       ELSE LET c == CASE n = 1 -> Lead(x) * 64 + (b[i + 1] - 128)
                       [] n = 2 -> (Lead(x) * 64 + (b[i + 1] - 128)) * 64 + (b[i + 2] - 128)
                       [] n = 3 -> ((Lead(x) * 64 + (b[i + 1] - 128)) * 64 + (b[i + 2] - 128)) * 64 + (b[i + 3] - 128)
            IN Utf8(b, i + 1 + n, Append(acc, c))
Chars(b) == IF \A i \in 1..Len(b) : b[i] < 128 THEN b ELSE Utf8(b, 1, <<>>)

(* The bytes of a length-prefixed string whose length is at i fit into b *)
Fits(b, i) == IF i + 3 > Len(b) THEN FALSE
              ELSE LET n == U32(b, i) IN n >= 0 /\ n <= Len(b) - (i + 3)
StrAt(b, i) == Chars(SubSeq(b, i + 4, i + 3 + U32(b, i)))
AfterStr(b, i) == i + 4 + U32(b, i)

(* The event: "ok", "bad" (not in the format), or "odd" (leaves the root, or two strings at one place: *)
(* the format forbids it but the result is not specified).                                            *)
NotAnEvent == [st |-> "bad", ev |-> <<>>]
RECURSIVE EventFrom(_, _, _, _, _)
EventFrom(b, i, P, ev, odd) ==
  IF i > Len(b) THEN [st |-> IF odd THEN "odd" ELSE "ok", ev |-> ev]
  ELSE CASE b[i] = 0 -> IF Fits(b, i + 1) THEN EventFrom(b, AfterStr(b, i + 1), Append(P, <<"f", StrAt(b, i + 1)>>), ev, odd)
                        ELSE NotAnEvent
         [] b[i] = 1 -> IF i + 4 <= Len(b)
                        THEN EventFrom(b, i + 5, Append(P, <<"i", <<I32(b, i + 1)>> >>), ev, odd \/ b[i + 1] >= 128)
                        ELSE NotAnEvent
         [] b[i] = 2 -> IF P = <<>> THEN [st |-> "odd", ev |-> <<>>]
                        ELSE EventFrom(b, i + 1, SubSeq(P, 1, Len(P) - 1), ev, odd)
         [] b[i] = 3 -> IF Fits(b, i + 1)
                        THEN EventFrom(b, AfterStr(b, i + 1), P, Append(ev, [p |-> P, s |-> StrAt(b, i + 1)]),
                                       odd \/ \E j \in 1..Len(ev) : ev[j].p = P)
                        ELSE NotAnEvent
         [] OTHER -> NotAnEvent
EventOf(b) == EventFrom(b, 1, <<>>, <<>>, FALSE)

-----------------------------------------------------------------------------
(* The response *)
RECURSIVE PathFrom(_, _, _)
PathFrom(b, i, P) ==                  \* [ok, p, i]: i at the marker after the path
  IF i > Len(b) THEN [ok |-> FALSE, p |-> P, i |-> i]
  ELSE IF b[i] = 0 /\ Fits(b, i + 1) THEN PathFrom(b, AfterStr(b, i + 1), Append(P, <<"f", StrAt(b, i + 1)>>))
  ELSE IF b[i] = 1 /\ i + 4 <= Len(b) THEN PathFrom(b, i + 5, Append(P, <<"i", <<I32(b, i + 1)>> >>))
  ELSE [ok |-> b[i] = 3 /\ Fits(b, i + 1), p |-> P, i |-> i]

NoResponse == [ok |-> FALSE, muts |-> <<>>, ms |-> <<>>]
RECURSIVE ResponseFrom(_, _, _)
ResponseFrom(b, i, r) ==
  IF i > Len(b) THEN r
  ELSE IF b[i] = 4
  THEN LET p == PathFrom(b, i + 1, <<>>) IN
       IF ~p.ok THEN NoResponse
       ELSE ResponseFrom(b, AfterStr(b, p.i + 1), [r EXCEPT !.muts = Append(@, [p |-> p.p, s |-> StrAt(b, p.i + 1)])])
  ELSE IF b[i] # 5 \/ i + 4 > Len(b) THEN NoResponse
  ELSE IF ~Fits(b, i + 5) THEN NoResponse
  ELSE IF ~Fits(b, AfterStr(b, i + 5)) THEN NoResponse
  ELSE LET q == AfterStr(b, AfterStr(b, i + 5)) IN
       IF q + 11 > Len(b) THEN NoResponse
       ELSE ResponseFrom(b, q + 12, [r EXCEPT !.ms = Append(@,
              [rule |-> I32(b, i + 1), path |-> StrAt(b, i + 5), rt |-> StrAt(b, AfterStr(b, i + 5)),
               start |-> I32(b, q), end |-> I32(b, q + 4), shift |-> I32(b, q + 8)])])
ResponseOf(b) == ResponseFrom(b, 1, [ok |-> TRUE, muts |-> <<>>, ms |-> <<>>])

-----------------------------------------------------------------------------
(* Paths and replacement types as the bindings show them *)
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE ShowFrom(_, _)
ShowFrom(P, k) ==
  IF k > Len(P) THEN <<>>
  ELSE (IF P[k][1] = "i" THEN <<91>> \o Decimal(P[k][2][1]) \o <<93>>
        ELSE (IF k > 1 THEN <<46>> ELSE <<>>) \o P[k][2]) \o ShowFrom(P, k + 1)
Show(P) == ShowFrom(P, 1)
RtText(rt) ==
  CASE rt = "none" -> <<110, 111, 110, 101>>
    [] rt = "placeholder" -> <<112, 108, 97, 99, 101, 104, 111, 108, 100, 101, 114>>
    [] rt = "hash" -> <<104, 97, 115, 104>>
    [] rt = "partial_beginning" -> <<112, 97, 114, 116, 105, 97, 108, 95, 98, 101, 103, 105, 110, 110, 105, 110, 103>>
    [] rt = "partial_end" -> <<112, 97, 114, 116, 105, 97, 108, 95, 101, 110, 100>>
=================================================================================
