----------------------------- MODULE MCMappings -----------------------------
(* Laws of the character mappings, for every character any of them changes.  *)
(* MAPPINGS: for each name its entries <<character, <<characters>>>>, sorted. *)
EXTENDS Naturals, Sequences, FiniteSets, IOUtils, Json
M == JsonDeserialize(IOEnv.MAPPINGS)
Names == DOMAIN M
VARIABLES name, i
Init == name \in Names /\ i \in 1..Len(M[name])
Next == UNCHANGED <<name, i>>
Spec == Init /\ [][Next]_<<name, i>>
RECURSIVE Find(_, _, _, _)
Find(t, v, a, z) == IF a > z THEN <<v>> ELSE LET m == (a + z) \div 2 IN IF t[m][1] = v THEN t[m][2] ELSE IF t[m][1] < v THEN Find(t, v, m + 1, z) ELSE Find(t, v, a, m - 1)
Map(n, v) == Find(M[n], v, 1, Len(M[n]))
RECURSIVE MapAll(_, _)
MapAll(n, q) == IF q = <<>> THEN <<>> ELSE Map(n, Head(q)) \o MapAll(n, Tail(q))
E == M[name][i]
\* doing it again changes nothing (Greek letters with a subscript iota: a simple mapping, that of the result a full one)
Stable == name \in {"UPPER", "LOWER", "CASEFOLD", "FULL", "HALF", "ASCIIFOLD"} /\ ~(name = "UPPER" /\ E[1] \in 8064..8188) => MapAll(name, E[2]) = E[2]
\* these undo each other
Inverse == /\ name = "FULL" => MapAll("HALF", E[2]) = <<E[1]>>
           /\ name = "HALF" => MapAll("FULL", E[2]) = <<E[1]>>
           /\ name = "UPSIDEDOWN" /\ Len(E[2]) = 1 => MapAll("UPSIDEDOWN", E[2]) = <<E[1]>>
\* folding ASCII stays in ASCII
Ascii == name = "ASCIIFOLD" => \A j \in 1..Len(E[2]) : E[2][j] < 128
\* texts that differ in case only have one folded form
Folded == name \in {"UPPER", "LOWER"} => (MapAll("CASEFOLD", E[2]) = Map("CASEFOLD", E[1]) \/ E[1] \in {304, 305})
=============================================================================
