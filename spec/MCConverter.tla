---------------------------- MODULE MCConverter ----------------------------
(* A closed model of Converter: every conversion emits for every input byte *)
(* a fixed string; an environment cuts, abandons, flushes and drains in all *)
(* possible ways.  Checks that the delivery rules imply that the collected  *)
(* bytes are always a prefix of the function's value, and all of it at the  *)
(* end.                                                                     *)
EXTENDS Converter, SequencesExt
CONSTANTS MaxIn, Handles

In == {"aa", "bb"}
Out(c, x) == \* an arbitrary function with multi-byte, empty and error-counting points
  CASE c = "f" /\ x = "aa" -> "a1a2" [] c = "f" /\ x = "bb" -> ""
    [] c = "g" /\ x = "aa" -> "cc"   [] c = "g" /\ x = "bb" -> "b0b1b2"
RECURSIVE Fn(_, _)
Fn(c, x) == IF x = "" THEN "" ELSE Out(c, SubSeq(x, 1, 2)) \o Fn(c, SubSeq(x, 3, Len(x)))

VARIABLE q   \* handle -> bytes the converter has produced and not delivered
mvars == <<inst, oracle, q>>

MCInit == Init /\ q = <<>>

Chop(s, n) == <<SubSeq(s, 1, 2 * n), SubSeq(s, 2 * n + 1, Len(s))>>
DoCall(h) ==
  \E d \in In \cup {""}, fl \in BOOLEAN, mode \in {"A", "P", "Q", "H", "N"}, cap \in 0..3 :
    /\ h \in DOMAIN inst
    /\ mode # "P" => cap = 0
    /\ Len(inst[h].inp) + Len(d) <= 2 * MaxIn
    /\ LET new == IF d = "" THEN "" ELSE Out(inst[h].conv, d)
           p == q[h] \o new
           \* the real converter hands out whole cells: anything up to cap may fit
           give == CASE mode = "A" -> {Bytes(p)} [] mode \in {"Q", "H", "N"} -> {0}
                     [] mode = "P" -> IF Bytes(p) <= cap THEN {Bytes(p)} ELSE 0..cap
       IN \E k \in give :
            LET cc == Chop(p, k) IN
              /\ Call(h, d, fl, mode, cap, cc[1], IF mode = "Q" THEN Bytes(p) ELSE k, "0")
              /\ q' = [q EXCEPT ![h] = IF mode = "N" THEN "" ELSE cc[2]]

MCNext ==
  \/ \E h \in Handles, c \in {"f", "g"} : Create(h, c) /\ q' = Put(q, h, "")
  \/ \E h \in Handles : Destroy(h) /\ q' = Del(q, h)
  \/ \E h \in Handles : Reinit(h) /\ q' = [q EXCEPT ![h] = ""]
  \/ \E h \in Handles : DoCall(h)
MCSpec == MCInit /\ [][MCNext]_mvars

\* the oracle does not take part in the behaviour: compare states without it
MCView == <<inst, q>>

DeliveredIsPrefix == \A h \in Live : Fits(inst[h].gone, inst[h].out \o q[h], Fn(inst[h].conv, inst[h].inp))
PendIsTrue == \A h \in Live : inst[h].pend = -1 \/ inst[h].pend = Bytes(q[h])
OracleIsFn == \A k \in DOMAIN oracle : oracle[k].out = Fn(k[1], k[2])
=============================================================================
