------------------------------- MODULE Normal -------------------------------
(* Unicode normalization as the four stages it is made of, over cells.       *)
(* NORMAL names a file: ccc: ranges <<first, last, class>> in order;         *)
(* comp: pairs that compose <<first, second, composite>>, in order.          *)
EXTENDS Naturals, Integers, Sequences, IOUtils, Json
NormalData == IF "NORMAL" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.NORMAL) ELSE [ccc |-> <<>>, comp |-> <<>>]
Ccc == NormalData.ccc
Comp == NormalData.comp

RECURSIVE RangeOf(_, _, _, _)
RangeOf(t, v, i, j) == \* what range of t has v, among i to j: its third, or 0
  IF i > j THEN 0
  ELSE LET m == (i + j) \div 2 r == t[m]
       IN IF v < r[1] THEN RangeOf(t, v, i, m - 1) ELSE IF v > r[2] THEN RangeOf(t, v, m + 1, j) ELSE r[3]
Class(v) == RangeOf(Ccc, v, 1, Len(Ccc))
RECURSIVE PairOf(_, _, _, _)
PairOf(a, b, i, j) ==
  IF i > j THEN 0
  ELSE LET m == (i + j) \div 2 r == Comp[m]
       IN IF r[1] = a /\ r[2] = b THEN r[3]
          ELSE IF r[1] < a \/ (r[1] = a /\ r[2] < b) THEN PairOf(a, b, m + 1, j) ELSE PairOf(a, b, i, m - 1)
Composite(a, b) == PairOf(a, b, 1, Len(Comp))

\* Everything works on elements [v, k]: a character v, or something else (v = -1); k is
\* what it came as, <<>> if it was made here;
\* what is not a character is a starter that combines with nothing.
ClassOf(e) == IF e.v < 0 THEN 0 ELSE Class(e.v)

Ch(v) == [v |-> v, k |-> <<>>]

\* canonical order: runs of non-starters sorted by class, stable
RECURSIVE Insert(_, _, _)
Insert(q, e, n) == \* into the run of the last n elements of q
  IF n = 0 \/ ClassOf(q[Len(q)]) <= ClassOf(e) THEN Append(q, e)
  ELSE Append(Insert(SubSeq(q, 1, Len(q) - 1), e, n - 1), q[Len(q)])
RECURSIVE Ordered(_, _, _, _)
Ordered(s, i, q, n) ==
  IF i > Len(s) THEN q
  ELSE IF ClassOf(s[i]) = 0 THEN Ordered(s, i + 1, Append(q, s[i]), 0)
  ELSE Ordered(s, i + 1, Insert(q, s[i], n), n + 1)
Order(s) == Ordered(s, 1, <<>>, 0)

\* composition: q out so far, st the place of the last starter in it (0: none)
\* a character composes with the last starter unless something of its class or above, or a starter, is between
RECURSIVE Composed(_, _, _, _)
Composed(s, i, q, st) ==
  IF i > Len(s) THEN q
  ELSE LET e == s[i] c == ClassOf(e)
           p == IF st = 0 \/ e.v < 0 \/ q[st].v < 0 THEN 0 ELSE Composite(q[st].v, e.v)
           near == Len(q) = st
           open == near \/ (c > 0 /\ ClassOf(q[Len(q)]) < c)
       IN IF p > 0 /\ open THEN Composed(s, i + 1, [q EXCEPT ![st] = Ch(p)], st)
          ELSE Composed(s, i + 1, Append(q, e), IF c = 0 THEN Len(q) + 1 ELSE st)
Compose(s) == Composed(s, 1, <<>>, 0)

\* Hangul: syllables apart and together
SBase == 44032  LBase == 4352  VBase == 4449  TBase == 4519
Syllable(v) == v >= SBase /\ v < SBase + 11172
Jamo(v) ==
  LET x == v - SBase
      t == x % 28
  IN <<Ch(LBase + (x \div 588)), Ch(VBase + ((x % 588) \div 28))>> \o (IF t = 0 THEN <<>> ELSE <<Ch(TBase + t)>>)
RECURSIVE Apart(_, _)
Apart(s, i) == IF i > Len(s) THEN <<>> ELSE (IF Syllable(s[i].v) THEN Jamo(s[i].v) ELSE <<s[i]>>) \o Apart(s, i + 1)
IsL(v) == v >= LBase /\ v < LBase + 19
IsV(v) == v >= VBase /\ v < VBase + 21
IsT(v) == v > TBase /\ v < TBase + 28
RECURSIVE Together(_, _)
Together(s, i) == \* only pairs and triples of single letters: syllables already together stay as they are
  IF i > Len(s) THEN <<>>
  ELSE IF i < Len(s) /\ IsL(s[i].v) /\ IsV(s[i + 1].v)
       THEN LET lv == SBase + ((s[i].v - LBase) * 21 + (s[i + 1].v - VBase)) * 28
            IN IF i + 1 < Len(s) /\ IsT(s[i + 2].v) THEN <<Ch(lv + (s[i + 2].v - TBase))>> \o Together(s, i + 3)
               ELSE <<Ch(lv)>> \o Together(s, i + 2)
       ELSE <<s[i]>> \o Together(s, i + 1)
=============================================================================
