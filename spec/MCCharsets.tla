----------------------------- MODULE MCCharsets -----------------------------
(* Laws of the specified character sets. CHARSETS: for each set its codes    *)
(* (dec: <<code, character, index of the character in enc>>, sorted by code) *)
(* and the characters it is written with (enc: <<character, code, index of   *)
(* the code in dec>>, sorted); an index of 0: there is none.                 *)
EXTENDS Naturals, Sequences, IOUtils, Json
File == JsonDeserialize(IOEnv.CHARSETS)
Sets == File.sets
\* transliterations: for each the set it writes in, and its outputs: <<bytes, indices of the codes they are>>
Trans == File.trans
Block == 512
VARIABLES set, b
Init == set \in 1..Len(Sets) /\ b = 0
Next == b * Block < Len(Sets[set].dec) + Len(Sets[set].enc) /\ b' = b + 1 /\ set' = set
Spec == Init /\ [][Next]_<<set, b>>
Range(n) == {i \in (b * Block + 1)..((b + 1) * Block) : i <= n}
S == Sets[set]
RECURSIVE Less(_, _)
Less(p, q) == IF p = <<>> THEN q # <<>> ELSE q # <<>> /\ (Head(p) < Head(q) \/ (Head(p) = Head(q) /\ Less(Tail(p), Tail(q))))
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* the indices say what they should
Indexed == /\ \A i \in Range(Len(S.dec)) : LET d == S.dec[i] IN d[3] > 0 => S.enc[d[3]][1] = d[2]
           /\ \A i \in Range(Len(S.enc)) : LET e == S.enc[i] IN e[3] > 0 => S.dec[e[3]][1] = e[2]
           /\ \A i \in Range(Len(S.dec)) : i > 1 => Less(S.dec[i - 1][1], S.dec[i][1])
           /\ \A i \in Range(Len(S.enc)) : i > 1 => S.enc[i - 1][1] < S.enc[i][1]
\* no code begins another (but where shifts tell them apart): text is read in one way only
PrefixFree == ~S.shifts => \A i \in Range(Len(S.dec)) : i > 1 => ~Prefix(S.dec[i - 1][1], S.dec[i][1])
\* ASCII is itself wherever the set is put beside it
AsciiKept == S.ascii => \A i \in Range(Len(S.dec)) : S.dec[i][1][1] >= 128
\* what is read can be written, and is then read as the same
Stable == S.enc # <<>> => \A i \in Range(Len(S.dec)) :
            LET d == S.dec[i] IN /\ d[3] > 0
                                 /\ LET e == S.enc[d[3]] IN e[3] > 0 /\ S.dec[e[3]][2] = d[2]
\* a set with nothing written one way is read and written by the same pairs
OneToOne == S.exact => \A i \in Range(Len(S.enc)) : S.enc[i][3] > 0 /\ S.dec[S.enc[i][3]][2] = S.enc[i][1]
\* what a transliteration puts in for a character can be read (index 0: an ASCII byte)
RECURSIVE Join(_, _, _)
Join(D, q, l) == IF q = <<>> THEN l = <<>>
                 ELSE LET w == IF Head(q) = 0 THEN <<Head(l)>> ELSE D[Head(q)][1]
                      IN l # <<>> /\ (Head(q) = 0 => Head(l) < 128) /\ Prefix(w, l) /\ Join(D, Tail(q), SubSeq(l, Len(w) + 1, Len(l)))
Readable == b = 0 => \A t \in 1..Len(Trans) : Trans[t].set = set =>
              \A i \in 1..Len(Trans[t].outs) : Join(S.dec, Trans[t].outs[i][2], Trans[t].outs[i][1])
=============================================================================
