--------------------------- MODULE MCConvString ---------------------------
(* Laws of the string operations, for all short strings over an alphabet. *)
EXTENDS ConvString
CONSTANTS Alphabet, MaxLen
Codecs == {<<98>>, <<98, 35, 99>>}
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E ch \in Alphabet : s' = Append(s, ch)
Spec == Init /\ [][Next]_s
ps == Parse(s)
OK == WellFormed(ps)
Strip(q) == [i \in 1..Len(q) |-> [type |-> q[i].type, codecs |-> [j \in 1..Len(q[i].codecs) |-> q[i].codecs[j]]]]
\* the text of what was parsed means the same
TextMeansSame == OK => Parse(Text(ps)) = ps
\* parsing and printing is idempotent, and only drops empty arguments
Stable == OK => Text(Parse(Text(ps))) = Text(ps)
\* editing a codec changes that codec and nothing else
Ns == -3..3
CodecEdit == OK => \A x \in Codecs : \A n \in Ns : \A m \in Ns :
  LET i == Index(n, Len(ps)) j == IF i \in 1..Len(ps) THEN Index(m, Len(ps[i].codecs)) ELSE 0
      r == Edit("rc", s, x, INTER, n, m) q == Edit("ic", s, x, INTER, n, m)
  IN /\ r # None => /\ Len(Parse(r)) = Len(ps)
                    /\ Parse(r) = [ps EXCEPT ![i].codecs[j] = Codec(x)]
     /\ q # None => /\ \A k \in 1..Len(ps) : k # i => Parse(q)[k] = ps[k]
                    /\ Parse(q)[i].codecs[j] = Codec(x) /\ Len(Parse(q)[i].codecs) = Len(ps[i].codecs) + 1
     \* indices count from either end
     /\ (m \in 0..(Len(ps[IF i \in 1..Len(ps) THEN i ELSE 1].codecs) - 1) /\ i \in 1..Len(ps)) =>
          Edit("rc", s, x, INTER, n, m - Len(ps[i].codecs)) = r
     /\ n \in 0..(Len(ps) - 1) => Edit("rc", s, x, INTER, n - Len(ps), m) = r
\* a mapping phase put inside a pipe leaves the others what they are
PhaseEdit == OK => \A x \in Codecs : \A n \in Ns :
  LET i == Index(n, Len(ps)) r == Edit("ip", s, x, INTER, n, 0)
  IN r # None => /\ Len(Parse(r)) = Len(ps) + 1
                 /\ (i > 1 /\ i <= Len(ps) /\ ps[i].type \in {INTER, TO}) => Parse(r) = InsertAt(ps, i, Phase(x, INTER))
                 /\ (i > Len(ps) => Parse(r) = Append(ps, Phase(x, INTER)))
===========================================================================
