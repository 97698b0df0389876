----------------------------- MODULE MCProgress -----------------------------
(***************************************************************************)
(* Why a call returns.  A conversion is a row of phases, each with a queue *)
(* of cells before it.  A phase takes cells from its queue and gives at    *)
(* most Most cells for each of them to the next one; it may go back over   *)
(* what it has looked at (a try that failed: the longest match so far, or  *)
(* else the next codec), but a try that failed for good takes at least the *)
(* first cell with it.  Flushing resolves what is pending, the lowest      *)
(* phase first.                                                            *)
(*                                                                         *)
(* seen[p]: cells of p's queue looked at, try[p]: which codec is at it,    *)
(* match[p]: cells matched so far (0: none).                               *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Phases, Codecs, Most, MaxIn
VARIABLES q, seen, try, match, at, flush, pc, left
vars == <<q, seen, try, match, at, flush, pc, left>>
P == 1..Phases
Init == /\ q = [p \in P |-> 0] /\ seen = [p \in P |-> 0] /\ try = [p \in P |-> 1] /\ match = [p \in P |-> 0]
        /\ at = 1 /\ flush = FALSE /\ pc = "idle" /\ left = MaxIn
\* the caller
Feed == /\ pc = "idle" /\ ~flush
        /\ \E n \in 0..left, f \in BOOLEAN : q' = [q EXCEPT ![1] = @ + n] /\ left' = left - n /\ flush' = f
        /\ pc' = "run" /\ at' = 1 /\ UNCHANGED <<seen, try, match>>
Unseen(p) == seen[p] < q[p]
\* k cells of p are done with, n are given to the next phase
Done(p, k, n) == /\ q' = [x \in P |-> IF x = p THEN q[p] - k ELSE IF x = p + 1 THEN q[x] + n ELSE q[x]]
                 /\ seen' = [seen EXCEPT ![p] = 0] /\ try' = [try EXCEPT ![p] = 1] /\ match' = [match EXCEPT ![p] = 0]
                 /\ UNCHANGED <<flush, pc, left>>
\* one more cell is looked at: it continues something, matches so far, or ends a match
Look(p) == /\ Unseen(p)
           /\ \/ seen' = [seen EXCEPT ![p] = @ + 1] /\ UNCHANGED <<q, try, match, flush, pc, left>>
              \/ seen' = [seen EXCEPT ![p] = @ + 1] /\ match' = [match EXCEPT ![p] = seen[p] + 1] /\ UNCHANGED <<q, try, flush, pc, left>>
              \/ \E n \in 0..Most * (seen[p] + 1) : Done(p, seen[p] + 1, n)
Dead(p) == IF match[p] > 0 THEN \E n \in 0..Most * match[p] : Done(p, match[p], n)
           ELSE IF try[p] < Codecs THEN try' = [try EXCEPT ![p] = @ + 1] /\ seen' = [seen EXCEPT ![p] = 0] /\ UNCHANGED <<q, match, flush, pc, left>>
           ELSE \E n \in 0..Most : Done(p, 1, n)
Step == /\ pc = "run" /\ at <= Phases
        /\ IF Unseen(at) THEN (Look(at) \/ Dead(at)) /\ UNCHANGED at
           ELSE at' = at + 1 /\ UNCHANGED <<q, seen, try, match, flush, pc, left>>
Pending(p) == seen[p] > 0
Lowest(S) == CHOOSE p \in S : \A r \in S : p <= r
End == /\ pc = "run" /\ at > Phases
       /\ LET again == {p \in P : Unseen(p)} pend == {p \in P : Pending(p)} IN
          IF again # {} THEN at' = Lowest(again) /\ UNCHANGED <<q, seen, try, match, flush, pc, left>>
          ELSE IF flush /\ pend # {} THEN at' = Lowest(pend) /\ Dead(Lowest(pend))
          ELSE pc' = (IF flush THEN "over" ELSE "idle") /\ at' = 1 /\ UNCHANGED <<q, seen, try, match, flush, left>>
Next == Feed \/ Step \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Step) /\ WF_vars(End)
TypeOK == \A p \in P : seen[p] <= q[p] /\ match[p] <= seen[p] /\ try[p] \in 1..Codecs
\* every call returns
Returns == pc = "run" ~> pc # "run"
\* and after the last one nothing is kept
Nothing == pc = "over" => \A p \in P : q[p] = 0 /\ seen[p] = 0
\* how much there can be
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Bounded == \A p \in P : q[p] <= MaxIn * Pow(Most, p - 1)
=============================================================================
