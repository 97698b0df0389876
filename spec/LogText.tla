------------------------------ MODULE LogText ------------------------------
(* What the command line tool says when a conversion's end is a log at the   *)
(* terminal.                                                                 *)
EXTENDS Naturals, Sequences
C == INSTANCE Codecs
Expected(k) == LET e == C!Expected(k) IN [rc |-> 0, out |-> IF k.to = 2 THEN e.out ELSE <<>>, log |-> e.log, c |-> e.c]
=============================================================================
