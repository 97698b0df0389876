------------------------------ MODULE MCScore ------------------------------
(* Learning from one text after another: what the file, the list and the    *)
(* scores of texts come to.                                                 *)
EXTENDS Score, TLC
CONSTANTS Chr, MaxText, MaxTexts
VARIABLES f, list, seen, n
vars == <<f, list, seen, n>>
Texts == UNION {[1..k -> Chr] : k \in 0..MaxText}
Init == f = Blank /\ list = <<>> /\ seen = <<>> /\ n = 0
Learn == \E t \in Texts : LET r == Train(f, t, <<>>) IN f' = r.f /\ list' = list \o r.new /\ seen' = seen \o t /\ n' = n + 1
Next == n < MaxTexts /\ Learn
Spec == Init /\ [][Next]_vars
Often(v) == Cardinality({i \in 1..Len(seen) : seen[i] = v})
\* a score is how often the character was seen, as far as three
Scores == \A v \in Chr : Of(f, v) = (IF Often(v) < Most THEN Often(v) ELSE Most)
\* every character is listed once, in the order of its first appearance
Once == /\ {list[i] : i \in 1..Len(list)} = {v \in Chr : Often(v) > 0}
        /\ Len(list) = Cardinality({v \in Chr : Often(v) > 0})
First(v) == CHOOSE i \in 1..Len(seen) : seen[i] = v /\ \A j \in 1..(i - 1) : seen[j] # v
InOrder == \A i, j \in 1..Len(list) : i < j => First(list[i]) < First(list[j])
\* cutting a text changes nothing; scoring adds up and never goes down by learning
Cuts == \A t \in Texts : \A k \in 0..Len(t) :
  LET a == Train(f, SubSeq(t, 1, k), <<>>) b == Train(a.f, SubSeq(t, k + 1, Len(t)), a.new) IN b = Train(f, t, <<>>)
Adds == \A t \in Texts : \A k \in 0..Len(t) : Sum(f, t) = Sum(f, SubSeq(t, 1, k)) + Sum(f, SubSeq(t, k + 1, Len(t)))
Grows == \A t \in Texts : Sum(Train(f, t, <<>>).f, t) >= Sum(f, t) /\ Sum(f, t) <= Most * Len(t)
=============================================================================
