------------------------------ MODULE MCStore ------------------------------
(* A list whose entries trade places with the first one when they are used *)
(* implements the map.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Keys, Values, MaxOps
VARIABLES list, map, n, ans
vars == <<list, map, n, ans>>
Init == list = <<>> /\ map = [k \in {} |-> 0] /\ n = 0 /\ ans = TRUE
Pos(k) == LET P == {i \in 1..Len(list) : list[i].k = k} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
\* entry i and the first trade places
Swap(i, e) == [list EXCEPT ![i] = list[1], ![1] = e]
Val(k) == IF k \in DOMAIN map THEN map[k] ELSE 0
Set(k, v) == /\ LET i == Pos(k) IN list' = IF i = 0 THEN <<[k |-> k, v |-> v]>> \o list ELSE Swap(i, [k |-> k, v |-> v])
             /\ map' = [x \in DOMAIN map \cup {k} |-> IF x = k THEN v ELSE map[x]] /\ ans' = TRUE
GetOp(k) == /\ LET i == Pos(k) IN list' = IF i = 0 THEN list ELSE Swap(i, list[i])
          /\ ans' = ((IF Pos(k) = 0 THEN 0 ELSE list[Pos(k)].v) = Val(k)) /\ UNCHANGED map
Del(k) == /\ LET i == Pos(k) IN list' = IF i = 0 THEN list ELSE SubSeq(list, 1, i - 1) \o SubSeq(list, i + 1, Len(list))
          /\ map' = [x \in DOMAIN map \ {k} |-> map[x]] /\ ans' = TRUE
Next == n < MaxOps /\ n' = n + 1 /\ \E k \in Keys : GetOp(k) \/ Del(k) \/ \E v \in Values : Set(k, v)
Spec == Init /\ [][Next]_vars
Answers == ans
Same == /\ {list[i].k : i \in 1..Len(list)} = DOMAIN map /\ Len(list) = Cardinality(DOMAIN map)
        /\ \A i \in 1..Len(list) : map[list[i].k] = list[i].v
=============================================================================
