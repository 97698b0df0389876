------------------------------ MODULE Progress ------------------------------
(***************************************************************************)
(* Every call of a conversion returns, and what it gives depends on what   *)
(* the instance was given and on nothing else: not on what memory happens  *)
(* to hold, nor on what lies about it.                                     *)
(*                                                                         *)
(* A case is a history of one instance: ops, and for each operation the    *)
(* answers it got in every memory (each one filled otherwise; one in which *)
(* bytes nobody wrote are known as such).  An answer is "" when there was  *)
(* none: the call did not return, or touched what is not its own.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

States == {"none", "ready", "using"}
Kinds == {"create", "init", "call", "held", "destroy"}
\* may the caller do this now?
May(s, k) == CASE k = "create" -> s = "none"
               [] k = "init" -> s # "none"
               [] k = "held" -> s # "none"
               [] k = "call" -> s # "none"
               [] OTHER -> s # "none"
Then(s, k) == CASE k = "create" -> "ready" [] k = "init" -> "ready" [] k = "call" -> "using" [] k = "destroy" -> "none" [] OTHER -> s
Returned(o) == \A m \in 1..Len(o.ans) : o.ans[m] # ""
Same(o) == \A m \in 1..Len(o.ans) : o.ans[m] = o.ans[1]
\* cells kept, when the instance is as new
Empty(o) == o.kept = 0
RECURSIVE Check(_, _, _)
Check(c, s, i) ==
  IF i > Len(c.ops) THEN 0
  ELSE LET o == c.ops[i] IN
    IF ~May(s, o.op) \/ ~Returned(o) \/ ~Same(o) \/ (o.op = "held" /\ s = "ready" /\ ~Empty(o)) THEN i
    ELSE Check(c, Then(s, o.op), i + 1)
Expected(c) == Check(c, "none", 1)
=============================================================================
