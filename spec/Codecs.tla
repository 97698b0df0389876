------------------------------- MODULE Codecs -------------------------------
(***************************************************************************)
(* Conversions made of the codecs that are programs, and of tables, in     *)
(* closed form: every phase of a conversion is a function from the whole   *)
(* sequence of cells before it to the one behind it, and the counters.     *)
(*                                                                         *)
(* A phase goes through its input from the left.  At each place the first  *)
(* of its codecs that recognises something takes what it recognises (the   *)
(* longest it can); where none does, a FROM phase skips a byte (IERR), an  *)
(* INTER phase lets the cell pass, a TO phase drops it (OERR).             *)
(*                                                                         *)
(* A cell is [b, m]: its bytes (the first of them the type), and a mark    *)
(* that only the codec PASS sets, tests and takes away.                    *)
(*                                                                         *)
(* A codec has a state of its own, 0 at the start, that changes only with  *)
(* what it takes.  Unit(k, x, s, p) says what codec k in state x takes of  *)
(* s at p: [n, out, x, c], n = 0 if nothing; c are the counters it bumps.  *)
(***************************************************************************)
EXTENDS Unicode, FiniteSets, IOUtils, Json
LOCAL NF == INSTANCE Normal

\* tables: tries over bytes, 256 ending a cell: sequences of nodes [o, n], the first the root
\* o: <<>> nothing recognised here, <<cells>> otherwise; n: <<>> or the children's numbers, 0 for none
Tries == IF "TRIES" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.TRIES) ELSE <<>>
\* widths by character: ranges <<first, last, width>> in order; 1 half, 2 full, 3 ambiguous
Widths == IF "WIDTHS" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.WIDTHS) ELSE <<>>

Cel(b) == [b |-> b, m |-> 0]
Cels(q) == [i \in 1..Len(q) |-> Cel(q[i])]
Nothing == [n |-> 0, out |-> <<>>, x |-> 0, c |-> <<>>]
Take(n, out) == [n |-> n, out |-> out, x |-> 0, c |-> <<>>]
TakeX(n, out, x) == [n |-> n, out |-> out, x |-> x, c |-> <<>>]
TakeC(n, out, c) == [n |-> n, out |-> out, x |-> 0, c |-> c]
\* from the [n, out] of Unicode.tla
Plain(u) == IF u.n = 0 THEN Nothing ELSE Take(u.n, Cels(u.out))
Set(q) == {q[i] : i \in 1..Len(q)}
Num(b) == Value(b)
IsChar(c) == Len(c.b) > 1 /\ c.b[1] = 1
CharOf(c) == Num(Tail(c.b))
Small(c) == Len(c.b) <= 4
Passes(k, c) ==
  IF k.ft = -1 THEN TRUE
  ELSE IF k.ft = -2 THEN c.b # <<>> /\ c.b[1] = 1 /\ Small(c) /\ (LET v == CharOf(c) IN \E i \in 1..Len(k.fr) : v >= k.fr[i][1] /\ v <= k.fr[i][2])
  ELSE c.b # <<>> /\ c.b[1] = k.ft

HexVal(d) == CASE d \in 48..57 -> d - 48 [] d \in 65..70 -> d - 55 [] d \in 97..102 -> d - 87 [] OTHER -> -1
DecVal(d) == IF d \in 48..57 THEN d - 48 ELSE -1
OctVal(d) == IF d \in 48..55 THEN d - 48 ELSE -1
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 55 + v
Hex02(v) == <<HexDigit(v \div 16), HexDigit(v % 16)>>
RECURSIVE HexText(_)
HexText(b) == IF b = <<>> THEN <<>> ELSE Hex02(Head(b)) \o HexText(Tail(b))
At(s, p) == IF p \in 1..Len(s) THEN s[p] ELSE -1
IsHex(s, p) == HexVal(At(s, p)) >= 0

\* what characters score: ranges <<first, last, score>> of a scorer
ScoreOf(rs, c) ==
  IF ~(c.b # <<>> /\ c.b[1] = 1 /\ Small(c)) THEN 0
  ELSE LET v == CharOf(c) m == SelectSeq(rs, LAMBDA r : v >= r[1] /\ v <= r[2]) IN IF m = <<>> THEN 0 ELSE m[1][3]
Times(n, v) == [i \in 1..v |-> n]

\* ------------------------------------------------------------------ tables
\* longest match in a trie: over bytes s from p, or over cells
Child(t, u, d) == IF t[u].n = <<>> THEN 0 ELSE t[u].n[d + 1]
RECURSIVE TrieBytes(_, _, _, _, _, _)
TrieBytes(t, u, s, p, n, best) == \* at node u with n bytes; best: [n, o]
  LET b2 == IF t[u].o # <<>> THEN [n |-> n, o |-> t[u].o[1]] ELSE best
      d == At(s, p + n)
      v == IF d = -1 THEN 0 ELSE Child(t, u, d)
  IN IF v = 0 THEN b2 ELSE TrieBytes(t, v, s, p, n + 1, b2)
RECURSIVE TrieCell(_, _, _, _)
TrieCell(t, u, b, i) == \* the node behind a whole cell, or 0
  IF u = 0 \/ i > Len(b) THEN u ELSE TrieCell(t, Child(t, u, b[i]), b, i + 1)
RECURSIVE TrieCells(_, _, _, _, _, _)
TrieCells(t, u, s, p, n, best) ==
  LET b2 == IF n > 0 /\ t[u].o # <<>> THEN [n |-> n, o |-> t[u].o[1]] ELSE best
      v == IF p + n > Len(s) THEN 0 ELSE TrieCell(t, IF n = 0 THEN u ELSE Child(t, u, 256), s[p + n].b, 1)
  IN IF v = 0 THEN b2 ELSE TrieCells(t, v, s, p, n + 1, b2)
\* the shortest match: a table's entry that is acted upon at once
RECURSIVE TrieShort(_, _, _, _, _)
TrieShort(t, u, s, p, n) ==
  IF n > 0 /\ t[u].o # <<>> THEN [n |-> n, o |-> t[u].o[1]]
  ELSE LET v == IF p + n > Len(s) THEN 0 ELSE TrieCell(t, IF n = 0 THEN u ELSE Child(t, u, 256), s[p + n].b, 1)
       IN IF v = 0 THEN [n |-> 0, o |-> <<>>] ELSE TrieShort(t, v, s, p, n + 1)
NoBest == [n |-> 0, o |-> <<>>]
FromBest(r) == IF r.n = 0 THEN Nothing ELSE Take(r.n, Cels(r.o))

\* ------------------------------------------------------------------- FROM
\* escapes: %uXXXX \uXXXX characters; %XX \xXX \OOO bytes
HexRun(s, p, n) == \A i \in 0..(n - 1) : IsHex(s, p + i)
Hex2(s, p) == HexVal(s[p]) * 16 + HexVal(s[p + 1])
EscapeUnit(s, p) ==
  LET a == s[p] b == At(s, p + 1)
      uni(q) == IF HexRun(s, q, 4) THEN Take(q + 4 - p, <<Cel(Cell(Hex2(s, q) * 256 + Hex2(s, q + 2)))>>) ELSE Nothing
      byte(q) == IF HexRun(s, q, 2) THEN Take(q + 2 - p, <<Cel(<<3, Hex2(s, q)>>)>>) ELSE Nothing
  IN CASE a = 37 /\ b = 117 -> uni(p + 2)
       [] a = 37 -> byte(p + 1)
       [] a = 92 /\ b = 117 -> uni(p + 2)
       [] a = 92 /\ b = 120 -> byte(p + 2)
       [] a = 92 -> IF OctVal(b) >= 0 /\ OctVal(At(s, p + 2)) >= 0 /\ OctVal(At(s, p + 3)) >= 0
                       /\ OctVal(b) * 64 + OctVal(s[p + 2]) * 8 + OctVal(s[p + 3]) <= 255
                    THEN Take(4, <<Cel(<<3, OctVal(b) * 64 + OctVal(s[p + 2]) * 8 + OctVal(s[p + 3])>>)>>) ELSE Nothing
       [] OTHER -> Nothing
\* &#DDD; &#xHHH;
RECURSIVE Digits(_, _, _, _, _)
Digits(s, q, base, v, some) == \* -> <<place of the ;, value>> or <<0, 0>>
  LET d == At(s, q) z == IF base = 16 THEN HexVal(d) ELSE DecVal(d)
  IN IF d = 59 THEN (IF some THEN <<q, v>> ELSE <<0, 0>>)
     ELSE IF z < 0 \/ v * base + z > 1114111 THEN <<0, 0>>
     ELSE Digits(s, q + 1, base, v * base + z, TRUE)
NcrUnit(s, p) ==
  IF s[p] = 38 /\ At(s, p + 1) = 35
  THEN LET r == IF At(s, p + 2) = 120 THEN Digits(s, p + 3, 16, 0, FALSE) ELSE Digits(s, p + 2, 10, 0, FALSE)
       IN IF r[1] = 0 THEN Nothing ELSE Take(r[1] - p + 1, <<Cel(Cell(r[2]))>>)
  ELSE Nothing
\* hexadecimal text of cells: runs of two digits and more
RECURSIVE RunLen(_, _)
RunLen(s, p) == IF IsHex(s, p) THEN 1 + RunLen(s, p + 1) ELSE 0
BsdconvUnit(s, p) ==
  LET n == RunLen(s, p)
  IN IF n < 2 THEN Nothing
     ELSE Take(n, <<Cel([i \in 1..((n + 1) \div 2) |-> IF 2 * i <= n THEN Hex2(s, p + 2 * i - 2) ELSE HexVal(s[p + n - 1])])>>)
\* terminal control sequences: ESC and what follows, as one cell
Ends(d) == d \in 97..122 \/ d \in 65..78 \/ d \in 80..90
RECURSIVE AnsiLen(_, _, _)
AnsiLen(s, p, n) == \* bytes of the sequence, n of them seen; 0: it does not end
  LET d == At(s, p + n)
  IN IF d = -1 THEN 0
     ELSE IF Ends(d) \/ n + 1 = 30 \/ (n + 1 = 2 /\ d # 91) THEN n + 1
     ELSE AnsiLen(s, p, n + 1)
AnsiUnit(s, p) ==
  IF s[p] # 27 THEN Nothing
  ELSE LET n == AnsiLen(s, p, 1) IN IF n = 0 THEN Nothing ELSE Take(n, <<Cel(SubSeq(s, p, p + n - 1))>>)
\* Big5 user defined areas (code page 950)
UdaUnit(s, p) ==
  LET h == s[p] d == At(s, p + 1)
      i == IF d < 128 THEN d - 64 ELSE d - 98
      base == CASE h \in 250..254 -> 57344 + 157 * (h - 250) [] h \in 142..160 -> 58129 + 157 * (h - 142)
                [] h \in 129..141 -> 61112 + 157 * (h - 129) [] h \in 198..200 -> 63090 + 157 * (h - 198) [] OTHER -> 0
      tail == d \in 64..126 \/ d \in 161..254
  IN IF base = 0 \/ ~tail \/ (h = 198 /\ d < 161) THEN Nothing ELSE Take(2, <<Cel(Cell(base + i))>>)
\* EBCDIC: shift out, shift in; while shifted characters are two bytes where there are such
EbcdicUnit(k, x, s, p) ==
  LET t == Tries[k.t]
      one == Child(t, 1, s[p])
      two == IF one = 0 \/ p = Len(s) THEN 0 ELSE Child(t, one, s[p + 1])
      has(u) == u # 0 /\ t[u].o # <<>>
  IN IF s[p] = 14 THEN TakeX(1, <<>>, 1)
     ELSE IF s[p] = 15 THEN TakeX(1, <<>>, 0)
     ELSE IF x = 1 /\ has(two) THEN TakeX(2, Cels(t[two].o[1]), 1)
     ELSE IF has(one) THEN TakeX(1, Cels(t[one].o[1]), x)
     ELSE IF has(two) THEN TakeX(2, Cels(t[two].o[1]), x) \* cannot be anything else
     ELSE Nothing
\* ISO 2022 JP: x is the set in use: 0 ASCII (not decoded here), 1 JIS X 0201 Roman, 2 JIS X 0208,
\* 3 JIS X 0212, 4 JIS X 0201 Katakana in seven bits (or eight)
JisEsc(s, p) ==
  LET a == At(s, p + 1) b == At(s, p + 2) c == At(s, p + 3)
  IN CASE a = 36 /\ b \in {64, 66} -> <<3, 2>>
       [] a = 40 /\ b = 66 -> <<3, 0>>
       [] a = 40 /\ b = 74 -> <<3, 1>>
       [] a = 40 /\ b = 73 -> <<3, 4>>
       [] a = 36 /\ b = 40 /\ c = 68 -> <<4, 3>>
       [] OTHER -> <<0, 0>>
JisUnit(k, x, s, p) ==
  IF s[p] = 27 THEN LET e == JisEsc(s, p) IN IF e[1] = 0 THEN Nothing ELSE TakeX(e[1], <<>>, e[2])
  ELSE IF x = 0 THEN Nothing
  ELSE LET r == IF x = 4 THEN TrieBytes(Tries[k.ts[1]], 1, <<IF s[p] < 128 THEN s[p] + 128 ELSE s[p]>>, 1, 0, NoBest)
                ELSE TrieBytes(Tries[k.ts[x]], 1, s, p, 0, NoBest)
       IN IF r.n = 0 THEN Nothing ELSE TakeX(r.n, Cels(r.o), x)

\* lines of a log are cells with mark 2: no codec sees them (Step takes them away)
LogLine(c) == [b |-> HexText(c.b) \o (IF c.m = 1 THEN <<32, 40, 32, 77, 65, 82, 75, 32, 41>> ELSE <<>>) \o <<10>>, m |-> 2]
\* f: the input as [b, len, m]: bytes; at the first byte of a cell its length and mark
FromUnit(k, x, f, p) ==
  LET s == f.b
  IN CASE k.k = "ASCII"    -> IF s[p] \in 1..127 THEN Take(1, <<Cel(<<1, s[p]>>)>>) ELSE Nothing
       [] k.k = "00"       -> IF s[p] = 0 THEN Take(1, <<Cel(<<1, 0>>)>>) ELSE Nothing
       [] k.k = "FALLBACK-UNICODE" -> Take(1, <<Cel(<<1, s[p]>>)>>)
       [] k.k = "BYTE"     -> Take(1, <<Cel(<<3, s[p]>>)>>)
       [] k.k = "HEX"      -> IF HexRun(s, p, 2) THEN Take(2, <<Cel(<<3, Hex2(s, p)>>)>>) ELSE Nothing
       [] k.k = "UTF-8"    -> Plain(Utf8Unit(Set(k.opts), s, p))
       [] k.k = "UTF-16LE" -> Plain(Utf16Unit(TRUE, s, p))
       [] k.k = "UTF-16BE" -> Plain(Utf16Unit(FALSE, s, p))
       [] k.k = "UTF-32LE" -> Plain(Utf32Unit(TRUE, s, p))
       [] k.k = "UTF-32BE" -> Plain(Utf32Unit(FALSE, s, p))
       [] k.k = "ESCAPE"   -> EscapeUnit(s, p)
       [] k.k = "NCR"      -> NcrUnit(s, p)
       [] k.k = "BSDCONV"  -> BsdconvUnit(s, p)
       [] k.k = "ANSI-CONTROL" -> AnsiUnit(s, p)
       [] k.k = "CP950-UDA" -> UdaUnit(s, p)
       [] k.k = "EBCDIC"   -> EbcdicUnit(k, x, s, p)
       [] k.k = "JIS"      -> JisUnit(k, x, s, p)
       [] k.k = "TABLE"    -> FromBest(TrieBytes(Tries[k.t], 1, s, p, 0, NoBest))
       [] k.k = "ANY"      -> TakeC(1, Cels(k.data), k.c)
       [] k.k = "LOG"      -> Take(1, <<LogLine(Cel(<<s[p]>>))>>)
       [] k.k = "PASS"     ->
            LET n == f.len[p] IN
            IF n = 0 THEN Nothing
            ELSE LET c == [b |-> SubSeq(s, p, p + n - 1), m |-> f.m[p]]
                 IN IF Passes(k, c) /\ (k.unmark = 0 \/ c.m = 1) THEN Take(n, <<[c EXCEPT !.m = IF k.unmark = 1 THEN 0 ELSE @]>>) ELSE Nothing

RECURSIVE Flat(_, _)
Flat(q, i) ==
  IF i > Len(q) THEN [b |-> <<>>, len |-> <<>>, m |-> <<>>]
  ELSE LET r == Flat(q, i + 1) n == Len(q[i].b)
       IN [b |-> q[i].b \o r.b, len |-> [j \in 1..n |-> IF j = 1 THEN n ELSE 0] \o r.len, m |-> [j \in 1..n |-> q[i].m] \o r.m]

\* --------------------------------------------------------------------- TO
Hex1(v) == IF v < 16 THEN <<HexDigit(v)>> ELSE Hex02(v)
RECURSIVE DecText(_)
DecText(v) == IF v < 10 THEN <<48 + v>> ELSE DecText(v \div 10) \o <<48 + (v % 10)>>
ImgHead == <<60,105,109,103,32,99,108,97,115,115,61,34,117,110,105,99,111,100,101,95,105,109,103,34,32,115,114,99,61,34,104,116,116,112,58,47,47,119,119,119,46,117,110,105,99,111,100,101,46,111,114,103,47,99,103,105,45,98,105,110,47,114,101,102,103,108,121,112,104,63,50,52,45>>
ImgTail == <<34, 32, 47, 62>>
\* links to character databases: code points and, by plane and code, CNS 11643's
InfoUcs == <<60,97,32,104,114,101,102,61,34,104,116,116,112,58,47,47,119,119,119,46,102,105,108,101,102,111,114,109,97,116,46,105,110,102,111,47,105,110,102,111,47,117,110,105,99,111,100,101,47,99,104,97,114,47>>
InfoRef == <<47,105,110,100,101,120,46,104,116,109,34,62,60,105,109,103,32,99,108,97,115,115,61,34,117,110,105,99,111,100,101,95,105,109,103,34,32,115,114,99,61,34,104,116,116,112,58,47,47,119,119,119,46,117,110,105,99,111,100,101,46,111,114,103,47,99,103,105,45,98,105,110,47,114,101,102,103,108,121,112,104,63,50,52,45>>
InfoCns == <<60,97,32,104,114,101,102,61,34,104,116,116,112,58,47,47,119,119,119,46,99,110,115,49,49,54,52,51,46,103,111,118,46,116,119,47,65,73,68,66,47,113,117,101,114,121,95,103,101,110,101,114,97,108,95,118,105,101,119,46,100,111,63,112,97,103,101,61>>
InfoPng == <<34,62,60,105,109,103,32,115,114,99,61,34,104,116,116,112,58,47,47,119,119,119,46,99,110,115,49,49,54,52,51,46,103,111,118,46,116,119,47,65,73,68,66,47,112,110,103,46,100,111,63,112,97,103,101,61>>
InfoCode == <<38,99,111,100,101,61>>
InfoEnd == <<34,32,47,62,60,47,97,62>>
InfoOut(c) ==
  LET v == Tail(c.b)
      first == IF v = <<>> THEN <<>> ELSE Hex1(v[1])
      rest == IF v = <<>> THEN <<>> ELSE HexText(Tail(v))
  IN CASE c.b[1] = 1 -> InfoUcs \o HexText(v) \o InfoRef \o first \o rest \o InfoEnd
       [] c.b[1] = 2 -> InfoCns \o first \o InfoCode \o rest \o InfoPng \o first \o InfoCode \o rest \o InfoEnd
EscapeOut(k, c) ==
  LET v == Tail(c.b)
      txt(t) == Take(1, <<Cel(k.pre \o t \o k.suf)>>)
  IN IF k.for = 1 /\ IsChar(c)
     THEN CASE k.mode = 16 -> txt(HexText(v)) [] k.mode = 10 -> txt(DecText(Num(v))) [] OTHER -> Nothing
     ELSE IF k.for = 3 /\ Len(c.b) = 2 /\ c.b[1] = 3
     THEN CASE k.mode = 16 -> txt(HexText(v)) [] k.mode = 10 -> txt(DecText(v[1]))
            [] k.mode = 8 -> txt(<<48 + v[1] \div 64, 48 + ((v[1] \div 8) % 8), 48 + (v[1] % 8)>>) [] OTHER -> Nothing
     ELSE Nothing
\* x: 1 while shifted; the shift back comes with the next single byte character, or at the end
EbcdicOut(k, x, c) ==
  LET t == Tries[k.t]
      u == TrieCell(t, 1, c.b, 1)
  IN IF u = 0 \/ t[u].o = <<>> THEN Nothing
     ELSE LET o == t[u].o[1][1]
          IN IF Len(o) > 1 THEN TakeX(1, <<Cel(IF x = 0 THEN <<14>> \o o ELSE o)>>, 1)
             ELSE TakeX(1, <<Cel(IF x = 1 THEN <<15>> \o o ELSE o)>>, 0)
Encoder(ok, b) == IF ok THEN Take(1, <<Cel(b)>>) ELSE Nothing
ToUnit(k, x, s, p) ==
  LET c == s[p]
      uni == IsChar(c) /\ Small(c)
      v == IF uni THEN CharOf(c) ELSE -1
  IN CASE k.k = "ASCII"    -> Encoder(v \in 1..127 \cup {732}, <<IF v = 732 THEN 126 ELSE v>>)   \* the small tilde too
       [] k.k = "00"       -> Encoder(v = 0 /\ Len(c.b) = 2, <<0>>)
       [] k.k = "UTF-8"    -> IF v >= 128 /\ v <= 1114111 THEN Encoder(TRUE, Utf8Enc(v)) ELSE Nothing
       [] k.k = "UTF-16LE" -> IF uni /\ v <= 1114111 THEN Encoder(TRUE, Utf16Enc(v, TRUE)) ELSE Nothing
       [] k.k = "UTF-16BE" -> IF uni /\ v <= 1114111 THEN Encoder(TRUE, Utf16Enc(v, FALSE)) ELSE Nothing
       [] k.k = "UCS-2LE"  -> IF uni /\ v < 65536 THEN Encoder(TRUE, Utf16Enc(v, TRUE)) ELSE Nothing
       [] k.k = "UCS-2BE"  -> IF uni /\ v < 65536 THEN Encoder(TRUE, Utf16Enc(v, FALSE)) ELSE Nothing
       [] k.k = "UTF-32LE" -> IF IsChar(c) /\ Len(c.b) <= 5 THEN Encoder(TRUE, Utf32Enc(c.b, TRUE)) ELSE Nothing
       [] k.k = "UTF-32BE" -> IF IsChar(c) /\ Len(c.b) <= 5 THEN Encoder(TRUE, Utf32Enc(c.b, FALSE)) ELSE Nothing
       [] k.k = "BYTE"     -> Encoder(Len(c.b) = 2 /\ c.b[1] = 3, Tail(c.b))
       [] k.k = "HEX"      -> Encoder(Len(c.b) = 2 /\ c.b[1] = 3, HexText(Tail(c.b)))
       [] k.k = "RAW"      -> Encoder(TRUE, Tail(c.b))
       [] k.k = "BSDCONV"  -> Encoder(TRUE, HexText(c.b))
       [] k.k = "NULL"     -> Take(1, <<>>)
       [] k.k = "LOG"      -> Take(1, <<LogLine(c)>>)
       [] k.k = "ESCAPE"   -> EscapeOut(k, c)
       [] k.k = "IMG"      -> IF c.b = <<>> \/ c.b[1] # 1 THEN Nothing
                              ELSE Encoder(TRUE, ImgHead \o (IF Len(c.b) > 1 THEN Hex1(c.b[2]) \o HexText(SubSeq(c.b, 3, Len(c.b))) ELSE <<>>) \o ImgTail)
       [] k.k = "INFO"     -> IF c.b = <<>> \/ c.b[1] \notin {1, 2} THEN Nothing ELSE Encoder(TRUE, InfoOut(c))
       [] k.k = "EBCDIC"   -> EbcdicOut(k, x, c)
       [] k.k = "TABLE"    -> FromBest(TrieCells(Tries[k.t], 1, s, p, 0, NoBest))
       [] k.k = "ANY"      -> TakeC(1, Cels(k.data), k.c)
       [] k.k = "PASS"     -> IF Passes(k, c) THEN Take(1, <<[c EXCEPT !.m = IF k.mark = 1 THEN 1 ELSE @]>>) ELSE Nothing

\* ------------------------------------------------------------------ INTER
RECURSIVE WidthIn(_, _, _)
WidthIn(v, i, j) == \* in ranges i to j
  IF i > j THEN 0
  ELSE LET m == (i + j) \div 2 r == Widths[m]
       IN IF v < r[1] THEN WidthIn(v, i, m - 1) ELSE IF v > r[2] THEN WidthIn(v, m + 1, j) ELSE r[3]
WidthOf(c) == IF ~(c.b # <<>> /\ c.b[1] = 1 /\ Small(c)) THEN 0 ELSE WidthIn(CharOf(c), 1, Len(Widths))
Columns(c, ambi) == CASE WidthOf(c) = 1 -> 1 [] WidthOf(c) = 2 -> 2 [] WidthOf(c) = 3 -> ambi [] OTHER -> 0
Nbsp == <<1, 160>>
White(c) == IsChar(c) /\ Small(c) /\ CharOf(c) \in {9, 10, 13, 32}
RECURSIVE Run(_, _, _)
Run(k, s, p) == IF p <= Len(s) /\ Passes(k, s[p]) THEN 1 + Run(k, s, p + 1) ELSE 0
\* a lead byte and its trail byte with control sequences in between: these go behind
RECURSIVE EscRun(_, _)
EscRun(s, p) == IF p <= Len(s) /\ s[p].b[1] = 27 THEN 1 + EscRun(s, p + 1) ELSE 0
Defrag(s, p) ==
  IF Len(s[p].b) > 1 /\ s[p].b[1] = 3 /\ s[p].b[2] > 127
  THEN LET n == EscRun(s, p + 1)
       IN IF p + n + 1 > Len(s) THEN Take(n + 1, SubSeq(s, p, p + n))
          ELSE Take(n + 2, <<s[p], s[p + n + 1]>> \o SubSeq(s, p + 1, p + n))
  ELSE Take(1, <<s[p]>>)
Unmarked(q) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.m = 0]]
InterUnit(k, x, s, p) ==
  LET c == s[p]
  IN CASE k.k = "PASS"   -> IF Passes(k, c) /\ (k.lim = 0 \/ x < k.lim) THEN TakeX(1, <<c>>, IF k.lim = 0 THEN 0 ELSE x + 1) ELSE Nothing
       [] k.k = "NULL"   -> Take(1, <<>>)
       [] k.k = "COUNT"  -> TakeC(1, <<c>>, IF Passes(k, c) THEN k.c ELSE <<>>)
       [] k.k = "INSERT" -> Take(1, Cels(k.before) \o <<c>> \o Cels(k.after))
       [] k.k = "REPLACE" ->
            IF p + Len(k.old) - 1 <= Len(s) /\ \A i \in 1..Len(k.old) : s[p + i - 1].b = k.old[i]
            THEN Take(Len(k.old), Cels(k.new)) ELSE Nothing
       \* runs of what the filter lets through, long enough, each between before and after; what ends a run goes with it
       [] k.k = "STRINGS" ->
            LET n == Run(k, s, p) t == IF p + n <= Len(s) THEN n + 1 ELSE n
            IN IF n > 0 /\ n >= k.min THEN Take(t, Cels(k.before) \o SubSeq(s, p, p + n - 1) \o Cels(k.after)) ELSE Take(t, <<>>)
       [] k.k = "WIDTH"  -> TakeC(1, <<c>>, CASE WidthOf(c) = 1 -> <<"HALF">> [] WidthOf(c) = 2 -> <<"FULL">> [] WidthOf(c) = 3 -> <<"AMBI">> [] OTHER -> <<>>)
       \* x: columns used; -1: full
       [] k.k = "TRIM-WIDTH" ->
            LET w == Columns(c, k.ambi)
            IN IF x >= 0 /\ x + w <= k.width THEN TakeX(1, <<c>>, x + w) ELSE TakeX(1, <<>>, -1)
       [] k.k = "AMBIGUOUS-PAD" -> Take(1, IF k.pad = 1 /\ WidthOf(c) = 3 THEN <<c, Cel(Nbsp)>> ELSE <<c>>)
       [] k.k = "AMBIGUOUS-UNPAD" ->
            IF x = 1 /\ c.b = Nbsp THEN TakeX(1, <<>>, 0)
            ELSE TakeX(1, <<c>>, IF k.pad = 1 /\ IsChar(c) /\ WidthOf(c) = 3 THEN 1 ELSE 0)
       [] k.k = "BIG5-DEFRAG" -> Defrag(s, p)
       \* what scores is counted as often as it scores; what does not is another's matter
       [] k.k = "SCORE"  -> LET v == ScoreOf(k.rs, c) IN IF v = 0 THEN Nothing ELSE TakeC(1, <<c>>, Times(k.c[1], v))
       \* a table of texts that score: the first cell is by how much
       [] k.k = "BONUS"  -> LET r == TrieShort(Tries[k.t], 1, s, p, 0)
                            IN IF r.n = 0 THEN Nothing ELSE TakeC(r.n, Cels(Tail(r.o)), Times("SCORE", r.o[1][1]))
       [] k.k = "TABLE"  -> FromBest(TrieCells(Tries[k.t], 1, s, p, 0, NoBest))

\* ----------------------------------------------------------------- phases
RECURSIVE FirstOf(_, _, _, _, _)
FirstOf(U(_, _), ks, xs, i, none) ==
  IF i > Len(ks) THEN none
  ELSE LET u == U(ks[i], xs[i]) IN IF u.n > 0 THEN [i |-> i, u |-> u] ELSE FirstOf(U, ks, xs, i + 1, none)
NoOne == [i |-> 0, u |-> Nothing]
\* r: [out, xs, c]
Took(r, f) == [out |-> r.out \o f.u.out, xs |-> [r.xs EXCEPT ![f.i] = f.u.x], c |-> r.c \o f.u.c]
RECURSIVE RunFrom(_, _, _, _)
RunFrom(ks, f, p, r) ==
  IF p > Len(f.b) THEN r
  ELSE LET w == FirstOf(LAMBDA k, x : FromUnit(k, x, f, p), ks, r.xs, 1, NoOne)
       IN IF w.i > 0 THEN RunFrom(ks, f, p + w.u.n, Took(r, w)) ELSE RunFrom(ks, f, p + 1, [r EXCEPT !.c = Append(@, "IERR")])
RECURSIVE RunInter(_, _, _, _)
RunInter(ks, s, p, r) ==
  IF p > Len(s) THEN r
  ELSE LET w == FirstOf(LAMBDA k, x : InterUnit(k, x, s, p), ks, r.xs, 1, NoOne)
       IN IF w.i > 0 THEN RunInter(ks, s, p + w.u.n, Took(r, w)) ELSE RunInter(ks, s, p + 1, [r EXCEPT !.out = Append(@, s[p])])
\* a shifted encoder (the first of its phase) shifts back where it is not the one to go on
Shifted(ks, r) == ks[1].k = "EBCDIC" /\ r.xs[1] = 1
Unshift(r) == [r EXCEPT !.out = Append(@, Cel(<<15>>)), !.xs[1] = 0]
RECURSIVE RunTo(_, _, _, _)
RunTo(ks, s, p, r) ==
  IF p > Len(s) THEN (IF Shifted(ks, r) THEN Unshift(r) ELSE r)
  ELSE LET w == FirstOf(LAMBDA k, x : ToUnit(k, x, s, p), ks, r.xs, 1, NoOne)
       IN IF Shifted(ks, r) /\ w.i # 1 THEN RunTo(ks, s, p, Unshift(r))
          ELSE IF w.i > 0 THEN RunTo(ks, s, p + w.u.n, Took(r, w)) ELSE RunTo(ks, s, p + 1, [r EXCEPT !.c = Append(@, "OERR")])

\* white space taken out and put back: rail is [cell, at] of what was taken, in order
NotWhite(c) == ~White(c)
RECURSIVE Derail(_, _, _)
Derail(s, i, n) == IF i > Len(s) THEN <<>> ELSE IF White(s[i]) THEN <<[c |-> s[i], at |-> n]>> \o Derail(s, i + 1, n) ELSE Derail(s, i + 1, n + 1)
RECURSIVE Rerail(_, _, _)
Rerail(s, i, rail) == \* in front of cell i, with i - 1 gone
  IF rail # <<>> /\ (i > Len(s) \/ rail[1].at <= i - 1) THEN <<rail[1].c>> \o Rerail(s, i, Tail(rail))
  ELSE IF i > Len(s) THEN <<>> ELSE <<s[i]>> \o Rerail(s, i + 1, rail)

\* normalization: cells as elements of Normal and back
Elem(c) == [v |-> IF IsChar(c) /\ Small(c) THEN CharOf(c) ELSE -1, k |-> <<c>>]
Elems(s) == [i \in 1..Len(s) |-> Elem(s[i])]
FromElems(q) == [i \in 1..Len(q) |-> IF q[i].k = <<>> THEN Cel(Cell(q[i].v)) ELSE q[i].k[1]]
Normalizing == {"NF-ORDER", "NF-COMPOSE", "HANGUL-APART", "HANGUL-TOGETHER"}
Normalized(k, s) ==
  LET e == Elems(s)
  IN FromElems(CASE k = "NF-ORDER" -> NF!Order(e) [] k = "NF-COMPOSE" -> NF!Compose(e) [] k = "HANGUL-APART" -> NF!Apart(e, 1) [] k = "HANGUL-TOGETHER" -> NF!Together(e, 1))

\* a run: [s, c, rail, log]
Logged(c) == c.m = 2
Seen(c) == c.m # 2
Step(ph, z) ==
  LET r0 == [out |-> <<>>, xs |-> [i \in 1..Len(ph.ks) |-> 0], c |-> <<>>]
      k == ph.ks[1].k
  IN IF ph.t = 2 /\ k = "WHITESPACE-DERAIL" THEN [z EXCEPT !.s = SelectSeq(z.s, NotWhite), !.rail = Derail(z.s, 1, 0)]
     ELSE IF ph.t = 2 /\ k = "WHITESPACE-RERAIL" THEN [z EXCEPT !.s = Rerail(z.s, 1, z.rail), !.rail = <<>>]
     ELSE IF ph.t = 2 /\ k \in Normalizing THEN [z EXCEPT !.s = Normalized(k, z.s)]
     ELSE LET r == CASE ph.t = 1 -> RunFrom(ph.ks, Flat(z.s, 1), 1, r0) [] ph.t = 2 -> RunInter(ph.ks, z.s, 1, r0) [] ph.t = 3 -> RunTo(ph.ks, z.s, 1, r0)
          IN [z EXCEPT !.s = SelectSeq(r.out, Seen), !.c = @ \o r.c, !.log = @ \o SelectSeq(r.out, Logged)]
RECURSIVE Steps(_, _, _)
Steps(ps, i, z) == IF i > Len(ps) THEN z ELSE Steps(ps, i + 1, Step(ps[i], z))
RECURSIVE Cat(_, _)
Cat(q, i) == IF i > Len(q) THEN <<>> ELSE q[i].b \o Cat(q, i + 1)
Count(c, n) == Cardinality({i \in 1..Len(c) : c[i] = n})
Convert(ps, in) == Steps(ps, 1, [s |-> in, c |-> <<>>, rail |-> <<>>, log |-> <<>>])
\* c.log: what is to be in the log, where there is one
\* cells: what is handed out as cells, empty ones aside; otherwise as bytes
Expected(case) ==
  LET z == Convert(case.ps, IF case.in = <<>> THEN <<>> ELSE <<Cel(case.in)>>)
      out == IF case.cells = 1 THEN LET q == SelectSeq(z.s, LAMBDA y : y.b # <<>>) IN [i \in 1..Len(q) |-> q[i].b] ELSE Cat(z.s, 1)
      c == [i \in 1..Len(case.names) |-> Count(z.c, case.names[i])]
  IN IF "log" \in DOMAIN case THEN [out |-> out, c |-> c, log |-> Cat(z.log, 1)] ELSE [out |-> out, c |-> c]
=============================================================================
