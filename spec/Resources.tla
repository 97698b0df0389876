----------------------------- MODULE Resources -----------------------------
(***************************************************************************)
(* What instances hold.  An instance holds what its conversion needs       *)
(* (descriptors, mapped tables) from a successful create to its destroy;   *)
(* a failed create holds nothing; using an instance holds nothing more     *)
(* that outlives it.  The working directory never changes.                 *)
(*                                                                         *)
(* A case is a history: base (what the process held before), cost (per     *)
(* conversion), ops with answers.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Sum(_, _)
Sum(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN f[x] + Sum(f, D \ {x})
\* st: slots (slot -> conversion), live (bytes held when idle; -1: not known yet)
Start == [slots |-> [x \in {} |-> 0], live |-> -1]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Idle(st) == DOMAIN st.slots = {}
\* is the answer right?
Right(c, st, o) ==
  LET Fds == [x \in DOMAIN st.slots |-> c.cost[st.slots[x]].fds]
      Maps == [x \in DOMAIN st.slots |-> c.cost[st.slots[x]].maps]
  IN CASE o.op = "create" -> /\ (o.ok = 1 => c.cost[o.conv].valid = 1)
                             /\ (o.ok = 0 => c.cost[o.conv].valid = 0 \/ o.scarce = 1)
       \* an instance made in scarcity is a whole one
       [] o.op = "use" -> o.same = 1
       [] o.op = "res" -> /\ o.fds = c.base.fds + Sum(Fds, DOMAIN Fds)
                          /\ o.maps = c.base.maps + Sum(Maps, DOMAIN Maps)
                          /\ o.cwd = c.base.cwd
                          /\ Idle(st) => o.sos = c.base.sos
                          /\ (Idle(st) /\ st.live >= 0) => o.live = st.live
       [] OTHER -> TRUE
After(st, o) ==
  CASE o.op = "create" /\ o.ok = 1 -> [st EXCEPT !.slots = Put(@, o.slot, o.conv)]
    [] o.op = "destroy" -> [st EXCEPT !.slots = Drop(@, o.slot)]
    [] o.op = "res" /\ Idle(st) /\ o.settled = 1 -> [st EXCEPT !.live = o.live]
    [] OTHER -> st
RECURSIVE Check(_, _, _)
Check(c, st, i) == IF i > Len(c.ops) THEN 0 ELSE IF ~Right(c, st, c.ops[i]) THEN i ELSE Check(c, After(st, c.ops[i]), i + 1)
Expected(c) == Check(c, Start, 1)
=============================================================================
