------------------------------ MODULE MCNormal ------------------------------
(* Laws of Normal.tla, on all short texts over an alphabet of characters     *)
(* (letters, marks of several classes, composites, jamo, syllables and -1,   *)
(* something that is no character), with canonical decompositions given.     *)
EXTENDS Normal, FiniteSets
CONSTANTS Alphabet, MaxLen
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E a \in Alphabet : s' = Append(s, IF a = 0 THEN [v |-> -1, k |-> <<0>>] ELSE Ch(a))
Spec == Init /\ [][Next]_s
\* one step of decomposition at a time, from the pairs of Comp
RECURSIVE Dec(_)
Dec(v) == LET q == SelectSeq(Comp, LAMBDA r : r[3] = v) IN IF q = <<>> THEN <<Ch(v)>> ELSE Dec(q[1][1]) \o <<Ch(q[1][2])>>
RECURSIVE Decompose(_, _)
Decompose(q, i) == IF i > Len(q) THEN <<>> ELSE (IF q[i].v < 0 THEN <<q[i]>> ELSE Dec(q[i].v)) \o Decompose(q, i + 1)
D(q) == Order(Apart(Decompose(q, 1), 1))
C(q) == Together(Compose(D(q)), 1)
Sorted(q) == \A i \in 1..(Len(q) - 1) : ClassOf(q[i + 1]) = 0 \/ ClassOf(q[i]) <= ClassOf(q[i + 1])
Idempotent == D(D(s)) = D(s) /\ C(C(s)) = C(s) /\ D(C(s)) = D(s) /\ Sorted(D(s))
\* texts that are equivalent have one form: swap two marks of different classes
Swapped(i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
Equivalent == \A i \in 1..(Len(s) - 1) :
  (ClassOf(s[i]) > 0 /\ ClassOf(s[i + 1]) > 0 /\ ClassOf(s[i]) # ClassOf(s[i + 1])) => (D(Swapped(i)) = D(s) /\ C(Swapped(i)) = C(s))
\* nothing more can be composed: composing is maximal
Maximal == \A i \in 1..(Len(C(s)) - 1) : LET q == C(s) IN (q[i].v >= 0 /\ q[i + 1].v >= 0 /\ ClassOf(q[i]) = 0) => Composite(q[i].v, q[i + 1].v) = 0
=============================================================================
