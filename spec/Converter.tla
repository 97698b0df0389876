----------------------------- MODULE Converter -----------------------------
(***************************************************************************)
(* The life of conversion instances as their users see it.                 *)
(*                                                                         *)
(* An instance is created for a conversion, (re)initialised, fed pieces of *)
(* input, flushed with the last piece, and drained through one of several  *)
(* output modes.  What the conversion computes is not described here (see  *)
(* Engine.tla and the codec specifications): it is an unknown FUNCTION of  *)
(* the whole input since the last initialisation, `oracle', learned the    *)
(* first time a (conversion, input) pair is completed.  Everything else -  *)
(* how the input was cut, what the instance did before, which other        *)
(* instances ran in between, how the output was collected - must not       *)
(* matter, and every completed conversion has to agree with the function.  *)
(*                                                                         *)
(* Byte strings are hexadecimal strings (two characters per byte).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES
  inst,    \* handle -> state of a live instance
  oracle   \* <<conversion, input>> -> [out, ctr]

vars == <<inst, oracle>>

Fresh(c) == [conv |-> c, inp |-> "", out |-> "", pend |-> 0, fin |-> FALSE, gone |-> <<>>, ready |-> FALSE, ctr |-> "?"]

Bytes(s) == Len(s) \div 2
Live == DOMAIN inst

Init == inst = <<>> /\ oracle = <<>>

\* a function with one more/less point
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Create(h, c) ==
  /\ h \notin Live
  /\ inst' = Put(inst, h, Fresh(c))
  /\ UNCHANGED oracle

Destroy(h) ==
  /\ h \in Live
  /\ inst' = Del(inst, h)
  /\ UNCHANGED oracle

\* bsdconv_init: whatever happened before is forgotten
Reinit(h) ==
  /\ h \in Live
  /\ inst' = [inst EXCEPT ![h] = [Fresh(@.conv) EXCEPT !.ready = TRUE]]
  /\ UNCHANGED oracle

Complete(s) == s.fin /\ s.pend = 0
Key(s) == <<s.conv, s.inp>>
Result(s) == [out |-> s.out, ctr |-> s.ctr]

(* An instance some of whose output was discarded: `gone' lists what was      *)
(* delivered before each discarding and how many bytes were then thrown away *)
(* (-1 unknown).  What is left must be the function's value with exactly     *)
(* these bytes missing.                                                      *)
RECURSIVE Fits(_, _, _)
Fits(gone, rest, str) ==
  IF gone = <<>> THEN rest = str
  ELSE LET g == Head(gone)
           k == Len(g.s)
       IN /\ k <= Len(str) /\ SubSeq(str, 1, k) = g.s
          /\ LET t == SubSeq(str, k + 1, Len(str)) IN
               IF g.n >= 0
               THEN 2 * g.n <= Len(t) /\ Fits(Tail(gone), rest, SubSeq(t, 2 * g.n + 1, Len(t)))
               ELSE \E i \in 0..Bytes(t) : Fits(Tail(gone), rest, SubSeq(t, 2 * i + 1, Len(t)))
Agrees(s, v) == v.ctr = s.ctr /\ Fits(s.gone, s.out, v.out)

(* What one call of the converter may deliver, per output mode:            *)
(*   "A" "F" "D"  everything that is pending                               *)
(*   "P"          at most cap bytes, all that is pending if it fits        *)
(*   "Q"          nothing, but tells how much is pending                   *)
(*   "H"          nothing                                                  *)
(*   "N"          everything that is pending is thrown away                *)
\* quiet: no new input and no end of input, so nothing new becomes pending
Deliver(s, quiet, mode, cap, o, n) ==
  LET known == quiet /\ s.pend >= 0 IN
  CASE mode \in {"A", "F", "D"} -> [s EXCEPT !.out = @ \o o, !.pend = 0]
    [] mode = "P" -> [s EXCEPT !.out = @ \o o, !.pend = IF known THEN s.pend - n ELSE -1]
    [] mode = "Q" -> [s EXCEPT !.pend = n]
    [] mode = "H" -> [s EXCEPT !.pend = IF known THEN s.pend ELSE -1]
    [] mode = "N" -> IF known /\ s.pend = 0 THEN s    \* nothing to throw away
                        ELSE [s EXCEPT !.pend = 0, !.out = "", !.gone = Append(@, [s |-> s.out, n |-> IF known THEN s.pend ELSE -1])]

DeliveryOK(s, quiet, mode, cap, o, n) ==
  LET known == quiet /\ s.pend >= 0 IN
  CASE mode \in {"A", "F", "D"} -> n = Bytes(o) /\ (known => n = s.pend)
    [] mode = "P" -> /\ n = Bytes(o) /\ n <= cap
                     /\ known => n <= s.pend /\ (s.pend <= cap => n = s.pend)
    [] mode = "Q" -> o = "" /\ n >= 0 /\ (known => n = s.pend)
    [] mode \in {"H", "N"} -> o = ""

\* One call.  d: new input ("" for none), fl: end of input, o: what came out,
\* n: the length reported, ctr: all counters after the call
Call(h, d, fl, mode, cap, o, n, ctr) ==
  /\ h \in Live
  /\ inst[h].ready
  /\ inst[h].fin => d = "" /\ ~fl         \* after the end only draining
  /\ LET quiet == d = "" /\ ~fl
         s0 == inst[h]
         s1 == [Deliver(s0, quiet, mode, cap, o, n) EXCEPT !.inp = @ \o d, !.fin = @ \/ fl, !.ctr = ctr]
     IN /\ DeliveryOK(s0, quiet, mode, cap, o, n)
        /\ inst' = [inst EXCEPT ![h] = s1]
        /\ IF Complete(s1) /\ ~Complete(s0)
           THEN IF Key(s1) \in DOMAIN oracle
                THEN Agrees(s1, oracle[Key(s1)]) /\ UNCHANGED oracle
                ELSE IF s1.gone = <<>> THEN oracle' = Put(oracle, Key(s1), Result(s1)) ELSE UNCHANGED oracle
           ELSE UNCHANGED oracle

\* The conversion ab = "a|b" computes, for input x, b of (a of x)
Composes(ab, a, b, x) ==
  /\ <<ab, x>> \in DOMAIN oracle
  /\ <<a, x>> \in DOMAIN oracle
  /\ LET y == oracle[<<a, x>>].out IN
       /\ <<b, y>> \in DOMAIN oracle
       /\ oracle[<<ab, x>>].out = oracle[<<b, y>>].out

\* Two conversions that are names of the same thing agree on every input
Same(c1, c2, x) ==
  /\ <<c1, x>> \in DOMAIN oracle /\ <<c2, x>> \in DOMAIN oracle
  /\ oracle[<<c1, x>>] = oracle[<<c2, x>>]

(* Two separate instances a and b chained by handing a's packets to b stand   *)
(* for one virtual instance of a|b; its counters are split over the two, so   *)
(* only the stream is compared.                                               *)
ChainInit(h, c) ==
  /\ inst' = Put(inst, h, [Fresh(c) EXCEPT !.ready = TRUE])
  /\ UNCHANGED oracle
ChainCall(h, d, fl, o) ==
  /\ h \in Live /\ inst[h].ready /\ ~inst[h].fin
  /\ LET s1 == [inst[h] EXCEPT !.inp = @ \o d, !.out = @ \o o, !.fin = fl]
     IN /\ fl => /\ Key(s1) \in DOMAIN oracle
                /\ oracle[Key(s1)].out = s1.out
        /\ inst' = IF fl THEN Del(inst, h) ELSE [inst EXCEPT ![h] = s1]
        /\ UNCHANGED oracle

Forget == inst = <<>> /\ oracle' = <<>> /\ UNCHANGED inst

(***************************************************************************)
(* Invariants of the life cycle itself                                     *)
(***************************************************************************)
TypeOK == \A h \in Live :
  /\ inst[h].pend >= -1
  /\ inst[h].fin => inst[h].ready

\* an instance whose conversion is complete stands for a point of the function
CompleteAgrees == \A h \in Live :
  Complete(inst[h]) => IF Key(inst[h]) \in DOMAIN oracle THEN Agrees(inst[h], oracle[Key(inst[h])]) ELSE inst[h].gone # <<>>

=============================================================================
