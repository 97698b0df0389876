------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* Mapping tables: what a table source denotes.                            *)
(*                                                                         *)
(* A table is a sequence of lines [key, ci, out]; a key is a sequence of   *)
(* tokens: a unit, or "*" for any unit; ci marks lines that also match the *)
(* other letter case.  A line with the longer exact part wins: a unit that *)
(* only matches after case folding ranks below an exact (or wildcard) one; *)
(* among equals the line that comes first wins.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Units, Fold(_), Wild

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

TokExact(tok, u) == tok = Wild \/ tok = u
TokMatch(tok, u, ci) == TokExact(tok, u) \/ (ci /\ tok # Wild /\ Fold(tok) = u)

LineMatches(ln, w) == /\ Len(ln.key) = Len(w)
                      /\ \A i \in 1..Len(w) : TokMatch(ln.key[i], w[i], ln.ci)
Level(ln, w) == Cardinality({i \in 1..Len(w) : TokExact(ln.key[i], w[i])})

Lines(t, w) == {i \in 1..Len(t) : LineMatches(t[i], w)}
Defined(t, w) == Lines(t, w) # {}
\* the output the table gives for exactly the word w
Lookup(t, w) ==
  LET ls == Lines(t, w)
      best == Max({Level(t[i], w) : i \in ls})
  IN t[Min({i \in ls : Level(t[i], w) = best})].out

\* some key of the table starts with w (and is longer)
Extends(t, w) == \E i \in 1..Len(t) :
  Len(t[i].key) > Len(w) /\ \A j \in 1..Len(w) : TokMatch(t[i].key[j], w[j], t[i].ci)

MaxKey(t) == IF t = <<>> THEN 0 ELSE Max({Len(t[i].key) : i \in 1..Len(t)})
=============================================================================
