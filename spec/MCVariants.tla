----------------------------- MODULE MCVariants -----------------------------
(* Laws of the tables of Chinese and Japanese variants, for every entry.     *)
(* VARIANTS: for each name its entries <<characters, characters>>, sorted.   *)
EXTENDS Naturals, Sequences, FiniteSets, IOUtils, Json
V == JsonDeserialize(IOEnv.VARIANTS)
Names == DOMAIN V
VARIABLES name, i
Init == name \in Names /\ i \in 1..Len(V[name])
Next == UNCHANGED <<name, i>>
Spec == Init /\ [][Next]_<<name, i>>
Words == {"ZHTW-WORDS", "KANA-PHONETIC"}
E == V[name][i]
RECURSIVE Find(_, _, _, _)
Find(t, v, a, z) == IF a > z THEN v ELSE LET m == (a + z) \div 2 IN IF t[m][1] = <<v>> THEN t[m][2][1] ELSE IF t[m][1][1] < v THEN Find(t, v, m + 1, z) ELSE Find(t, v, a, m - 1)
Map(n, v) == Find(V[n], v, 1, Len(V[n]))
\* one character for one, another one, and that one stays
Single == name \notin Words => Len(E[1]) = 1 /\ Len(E[2]) = 1 /\ E[1] # E[2] /\ Map(name, E[2][1]) = E[2][1]
\* a key once, in order
Once == i > 1 => LET a == V[name][i - 1][1] b == E[1] IN
          \E k \in 1..Len(b) : SubSeq(a, 1, k - 1) = SubSeq(b, 1, k - 1) /\ (Len(a) < k \/ a[k] < b[k])
\* what replaces characters beyond the Basic Multilingual Plane is in it
Basic == name \in {"BMP-TRANS-CN", "BMP-TRANS-TW"} => E[1][1] > 65535 /\ E[2][1] <= 65535
\* doing the first beforehand changes nothing of the second
Finer == {<<"BMP-TRANS-CN", "ZHCN">>, <<"BMP-TRANS-CN", "ZH-FUZZY-TW">>, <<"BMP-TRANS-CN", "ZH-FUZZY-CN">>,
          <<"BMP-TRANS-TW", "ZHTW">>, <<"BMP-TRANS-TW", "ZHCN">>, <<"BMP-TRANS-TW", "ZH-FUZZY-TW">>, <<"BMP-TRANS-TW", "ZH-FUZZY-CN">>,
          <<"HANJA", "ZH-FUZZY-TW">>, <<"HANJA", "ZH-FUZZY-CN">>, <<"HANJA", "KANJI">>,
          <<"ZHTW", "ZH-FUZZY-TW">>, <<"ZHCN", "ZH-FUZZY-TW">>, <<"ZHCN", "ZH-FUZZY-CN">>}
Absorbed == \A p \in Finer : name \in {p[1], p[2]} => Map(p[2], Map(p[1], E[1][1])) = Map(p[2], E[1][1])
\* to simplified from whatever; back to traditional only where one simplified character stands for one
There == name \in {"ZHTW", "ZHCN"} => LET v == E[1][1] IN Map("ZHCN", Map("ZHTW", v)) = Map("ZHCN", v) \/ v \in {24315, 64183}
Size(s) == Cardinality(s)
Back == name = "ZHTW" /\ i = 1 =>
          Size({j \in 1..Len(V["ZHTW"]) : Map("ZHTW", Map("ZHCN", V["ZHTW"][j][1][1])) # V["ZHTW"][j][2][1]})
        + Size({j \in 1..Len(V["ZHCN"]) : LET v == V["ZHCN"][j][1][1] IN Map("ZHTW", v) = v /\ Map("ZHTW", Map("ZHCN", v)) # v}) <= 18
\* phrases keep their length; kana are read the same in either script, in letters
Phrase == name = "ZHTW-WORDS" => Len(E[1]) = Len(E[2]) /\ Len(E[1]) > 1
Katakana(q) == [j \in 1..Len(q) |-> IF q[j] \in 12353..12438 THEN q[j] + 96 ELSE q[j]]
Kana == name = "KANA-PHONETIC" =>
          /\ \A j \in 1..Len(E[1]) : E[1][j] \in 12353..12543
          /\ \A j \in 1..Len(E[2]) : E[2][j] \in 97..122 \cup {45}
          /\ E[1][1] \in 12353..12438 => \E j \in 1..Len(V[name]) : V[name][j][1] = Katakana(E[1]) /\ V[name][j][2] = E[2]
=============================================================================
