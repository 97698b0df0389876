----------------------------- MODULE Transcode -----------------------------
(***************************************************************************)
(* Conversions between the Unicode encodings and GB18030: what a case      *)
(* [from, to, opts, in] has to produce.                                    *)
(***************************************************************************)
EXTENDS Unicode, IOUtils, Json

\* BMP part of GB18030: Gb[c + 1] is the byte sequence of U+c (<<>>: none),
\* GbInv maps sequences (as numbers) back
Gb == IF "GB" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.GB) ELSE <<>>
GbTwo == IF "GB2" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.GB2) ELSE <<>>   \* by 191 * (lead - 129) + (trail - 64) + 1
GbFour == IF "GB4" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.GB4) ELSE <<>>  \* by linear index + 1

GbUnit(s, p) ==
  IF Gb4(s, p)
  THEN LET i == GbLinear(SubSeq(s, p, p + 3)) IN
       IF i < Len(GbFour) /\ GbFour[i + 1] >= 0 THEN One(4, GbFour[i + 1])
       ELSE IF i >= GbSuppBase /\ i < GbSuppBase + 1048576 THEN One(4, 65536 + i - GbSuppBase)
       ELSE Dead
  ELSE IF Gb2(s, p)
  THEN LET c == GbTwo[191 * (s[p] - 129) + (s[p + 1] - 64) + 1] IN IF c >= 0 THEN One(2, c) ELSE Dead
  ELSE Dead

Range(f) == {f[i] : i \in DOMAIN f}
TUnit(k, s, p) ==
  CASE k.name = "ASCII"    -> IF s[p] \in 1..127 THEN One(1, s[p]) ELSE Dead
    [] k.name = "UTF-8"    -> Utf8Unit(Range(k.opts), s, p)
    [] k.name = "UTF-16LE" -> Utf16Unit(TRUE, s, p)
    [] k.name = "UTF-16BE" -> Utf16Unit(FALSE, s, p)
    [] k.name = "UTF-32LE" -> Utf32Unit(TRUE, s, p)
    [] k.name = "UTF-32BE" -> Utf32Unit(FALSE, s, p)
    [] k.name = "GB18030"  -> GbUnit(s, p)
    [] k.name = "BYTE"     -> [n |-> 1, out |-> <<<<3, s[p]>>>>]
    [] k.name = "SKIP1"    -> [n |-> 1, out |-> <<>>]

S == INSTANCE Stream WITH Unit <- TUnit

No == [ok |-> FALSE, out |-> <<>>]
Yes(b) == [ok |-> TRUE, out |-> b]
\* encoders; cells are minimal (no leading zero bytes)
Enc(k, c) ==
  IF k.name = "BYTE" THEN (IF c[1] = 3 THEN Yes(Tail(c)) ELSE No)
  ELSE IF k.name = "CELLS" THEN Yes(<<c>>)
  ELSE IF c[1] # 1 THEN No
  ELSE LET big == Len(c) > 4
           v == IF big THEN -1 ELSE Value(Tail(c))
       IN CASE k.name = "ASCII"    -> IF ~big /\ v \in 1..127 THEN Yes(<<v>>) ELSE No
            [] k.name = "UTF-8"    -> IF ~big /\ v >= 128 /\ v <= 1114111 THEN Yes(Utf8Enc(v)) ELSE No
            [] k.name = "UTF-16LE" -> IF ~big /\ v <= 1114111 THEN Yes(Utf16Enc(v, TRUE)) ELSE No
            [] k.name = "UTF-16BE" -> IF ~big /\ v <= 1114111 THEN Yes(Utf16Enc(v, FALSE)) ELSE No
            [] k.name = "UCS-2LE"  -> IF ~big /\ v < 65536 THEN Yes(Utf16Enc(v, TRUE)) ELSE No
            [] k.name = "UCS-2BE"  -> IF ~big /\ v < 65536 THEN Yes(Utf16Enc(v, FALSE)) ELSE No
            [] k.name = "UTF-32LE" -> Yes(Utf32Enc(c, TRUE))
            [] k.name = "UTF-32BE" -> Yes(Utf32Enc(c, FALSE))
            [] k.name = "GB18030"  -> IF big \/ v > 1114111 \/ v < 128 THEN No
                                      ELSE IF v >= 65536 THEN Yes(GbSeq(GbSuppBase + v - 65536))
                                      ELSE IF Gb[v + 1] = <<>> THEN No ELSE Yes(Gb[v + 1])

Expected(case) ==
  LET d == S!DecodeAll(case.from, case.in)
      e == S!EncodeAll(Enc, case.to, d.out, 1, <<>>, 0)
  IN [out |-> e.out, ierr |-> d.err, oerr |-> e.err]

\* a block of consecutive code points, encoded in case.from and converted to case.to
BlockCps(b) == [i \in 1..256 |-> 256 * b + i - 1]
=============================================================================
