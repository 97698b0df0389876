------------------------------ MODULE Unicode ------------------------------
(***************************************************************************)
(* The Unicode encoding forms: UTF-8 (with the decoder's options), UTF-16, *)
(* UTF-32, UCS-2, ASCII, and the algorithmic part of GB18030.              *)
(* Bytes are integers, code points are integers, cells are byte sequences. *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Strip(_)
Strip(b) == IF Len(b) > 1 /\ b[1] = 0 THEN Strip(Tail(b)) ELSE b
Bytes3(c) == <<c \div 65536, (c \div 256) % 256, c % 256>>
Bytes4(c) == <<c \div 16777216>> \o Bytes3(c % 16777216)
Cell(c) == <<1>> \o Strip(Bytes4(c))
RECURSIVE Value(_)
Value(b) == IF b = <<>> THEN 0 ELSE Value(SubSeq(b, 1, Len(b) - 1)) * 256 + b[Len(b)]

IsHigh(c) == c >= 55296 /\ c <= 56319
IsLow(c) == c >= 56320 /\ c <= 57343
Pair(h, l) == 65536 + (h - 55296) * 1024 + (l - 56320)
IsScalar(c) == c >= 0 /\ c <= 1114111 /\ ~IsHigh(c) /\ ~IsLow(c)

\* ------------------------------------------------------------------ UTF-8
LeadLen(d) == CASE d >= 192 /\ d <= 223 -> 2 [] d >= 224 /\ d <= 239 -> 3 [] d >= 240 /\ d <= 247 -> 4
                [] d >= 248 /\ d <= 251 -> 5 [] d >= 252 /\ d <= 253 -> 6 [] OTHER -> 0
LeadBits(d, n) == CASE n = 2 -> d % 32 [] n = 3 -> d % 16 [] n = 4 -> d % 8 [] n = 5 -> d % 4 [] OTHER -> d % 2
MinOf(n) == CASE n = 2 -> 128 [] n = 3 -> 2048 [] n = 4 -> 65536 [] n = 5 -> 2097152 [] OTHER -> 67108864
RECURSIVE Cont(_, _, _, _)
Cont(s, p, k, v) == \* k continuation bytes from p; -1 if not there
  IF k = 0 THEN v
  ELSE IF p > Len(s) \/ s[p] < 128 \/ s[p] > 191 THEN -1
  ELSE Cont(s, p + 1, k - 1, v * 64 + (s[p] % 64))
\* one encoded value at p: [n, c]; o is the set of options
Utf8Seq(o, s, p) ==
  LET bad == [n |-> 0, c |-> 0]
      n == IF p > Len(s) THEN 0 ELSE LeadLen(s[p])
      v == IF n = 0 THEN -1 ELSE Cont(s, p + 1, n - 1, LeadBits(s[p], n))
  IN CASE n = 0 \/ v < 0 -> bad
       [] n > 4 /\ "SUPER" \notin o -> bad
       [] v < MinOf(n) /\ "OVERLONG" \notin o -> bad
       [] v > 1114111 /\ "SUPER" \notin o -> bad
       [] v = 0 /\ "NUL" \notin o -> bad
       [] OTHER -> [n |-> n, c |-> v]
One(n, c) == [n |-> n, out |-> <<Cell(c)>>]
Dead == [n |-> 0, out |-> <<>>]
\* what the multi-byte UTF-8 decoder recognises at p
Utf8Unit(o, s, p) ==
  LET u == Utf8Seq(o, s, p) IN
  CASE u.n = 0 -> Dead
    [] IsHigh(u.c) /\ "CESU" \in o ->
         LET v == Utf8Seq(o, s, p + u.n) IN
         IF v.n > 0 /\ IsLow(v.c) THEN One(u.n + v.n, Pair(u.c, v.c))
         ELSE IF "LOOSE" \in o THEN One(u.n, u.c) ELSE Dead
    [] (IsHigh(u.c) \/ IsLow(u.c)) /\ "LOOSE" \notin o -> Dead
    [] OTHER -> One(u.n, u.c)
\* Unicode Table 3-7, for comparison
WellFormed(s) ==
  LET in(i, a, b) == s[i] >= a /\ s[i] <= b
      ct(i) == in(i, 128, 191)
  IN \/ Len(s) = 1 /\ in(1, 0, 127)
     \/ Len(s) = 2 /\ in(1, 194, 223) /\ ct(2)
     \/ Len(s) = 3 /\ ct(3) /\ \/ s[1] = 224 /\ in(2, 160, 191)
                               \/ (in(1, 225, 236) \/ in(1, 238, 239)) /\ ct(2)
                               \/ s[1] = 237 /\ in(2, 128, 159)
     \/ Len(s) = 4 /\ ct(3) /\ ct(4) /\ \/ s[1] = 240 /\ in(2, 144, 191)
                                        \/ in(1, 241, 243) /\ ct(2)
                                        \/ s[1] = 244 /\ in(2, 128, 143)
Utf8Enc(c) ==
  CASE c < 128 -> <<c>>
    [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
    [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

\* ----------------------------------------------------------- UTF-16, UTF-32
Word(s, p, le) == IF le THEN s[p + 1] * 256 + s[p] ELSE s[p] * 256 + s[p + 1]
\* a high surrogate needs its low one; a low one alone stands for itself
Utf16Unit(le, s, p) ==
  IF p + 1 > Len(s) THEN Dead
  ELSE LET w == Word(s, p, le) IN
       IF ~IsHigh(w) THEN One(2, w)
       ELSE IF p + 3 > Len(s) \/ ~IsLow(Word(s, p + 2, le)) THEN Dead
       ELSE One(4, Pair(w, Word(s, p + 2, le)))
Order(b, le) == IF le THEN [i \in 1..Len(b) |-> b[Len(b) + 1 - i]] ELSE b
Utf16Enc(c, le) ==
  LET w(x) == Order(<<x \div 256, x % 256>>, le)
  IN IF c < 65536 THEN w(c) ELSE w(55296 + (c - 65536) \div 1024) \o w(56320 + ((c - 65536) % 1024))
Utf32Unit(le, s, p) ==
  IF p + 3 > Len(s) THEN Dead
  ELSE [n |-> 4, out |-> <<(<<1>> \o Strip(Order(SubSeq(s, p, p + 3), le)))>>]
Utf32Enc(cell, le) == \* of a cell: up to four bytes
  Order([i \in 1..(5 - Len(cell)) |-> 0] \o Tail(cell), le)

\* -------------------------------------------------------------- GB18030
\* supplementary planes are linear; the BMP part is a table (given by the caller)
GbLinear(b) == (((b[1] - 129) * 10 + (b[2] - 48)) * 126 + (b[3] - 129)) * 10 + (b[4] - 48)
GbSeq(i) == <<129 + i \div 12600, 48 + ((i \div 1260) % 10), 129 + ((i \div 10) % 126), 48 + (i % 10)>>
GbSuppBase == 189000
Gb4(s, p) == p + 3 <= Len(s) /\ s[p] \in 129..254 /\ s[p + 1] \in 48..57 /\ s[p + 2] \in 129..254 /\ s[p + 3] \in 48..57
Gb2(s, p) == p + 1 <= Len(s) /\ s[p] \in 129..254 /\ s[p + 1] \in 64..254 /\ s[p + 1] # 127
=============================================================================
