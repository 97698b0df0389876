------------------------------ MODULE CliText ------------------------------
(* What the command line tool writes for one input after another: each is    *)
(* converted afresh, and counted by itself.                                  *)
EXTENDS Naturals, Sequences
C == INSTANCE Codecs
RECURSIVE All(_)
All(ps) == IF ps = <<>> THEN [out |-> <<>>, c |-> <<>>]
           ELSE LET e == C!Expected(Head(ps)) t == All(Tail(ps)) IN [out |-> e.out \o t.out, c |-> <<e.c>> \o t.c]
Expected(k) == All(k.parts)
=============================================================================
