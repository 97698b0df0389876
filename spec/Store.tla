------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* What an instance stores: values by key (keys are told apart by case),   *)
(* and counters by name (names are not; a counter is there, at zero, as    *)
(* soon as someone asks for it, and where it is kept never moves).         *)
(* Keys and names are sequences of character codes.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Up(ch) == IF ch \in 97..122 THEN ch - 32 ELSE ch
Upper(s) == [i \in 1..Len(s) |-> Up(s[i])]
IErr == <<73, 69, 82, 82>>
OErr == <<79, 69, 82, 82>>

\* state: [hash: function key -> value, ctr: function name -> number, ptr: handle -> name]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Empty == [x \in {} |-> 0]
New == [hash |-> Empty, ctr |-> [x \in {IErr, OErr} |-> 0], ptr |-> Empty]

\* all counters, by name
Shown(st) == st.ctr
Touch(st, n) == IF n \in DOMAIN st.ctr THEN st ELSE [st EXCEPT !.ctr = With(@, n, 0)]

\* op -> [st, v]: the state after it and its answer (0 where there is none)
Step(st, o) ==
  LET n == Upper(o.k)
  IN CASE o.op = "hset" -> [st |-> [st EXCEPT !.hash = With(@, o.k, o.v)], v |-> 0]
       [] o.op = "hget" -> [st |-> st, v |-> Get(st.hash, o.k)]
       [] o.op = "hhas" -> [st |-> st, v |-> IF o.k \in DOMAIN st.hash THEN 1 ELSE 0]
       [] o.op = "hdel" -> [st |-> [st EXCEPT !.hash = Without(@, o.k)], v |-> 0]
       [] o.op = "counter" -> [st |-> Touch(st, n), v |-> Get(st.ctr, n)]
       [] o.op = "cadd" -> LET t == Touch(st, n) IN [st |-> [t EXCEPT !.ctr[n] = @ + o.v], v |-> Get(st.ctr, n) + o.v]
       [] o.op = "creset" -> [st |-> LET t == Touch(st, n) IN [t EXCEPT !.ctr[n] = 0], v |-> 0]
       [] o.op = "cresetall" -> [st |-> [st EXCEPT !.ctr = [x \in DOMAIN @ |-> 0]], v |-> 0]
       \* handles: where a counter is kept
       [] o.op = "cptr" -> [st |-> LET t == Touch(st, n) IN [t EXCEPT !.ptr = With(@, o.v, n)], v |-> 0]
       [] o.op = "cread" -> [st |-> st, v |-> IF o.v \in DOMAIN st.ptr THEN st.ctr[st.ptr[o.v]] ELSE -1]
       [] o.op = "cinc" -> [st |-> IF o.v \in DOMAIN st.ptr THEN [st EXCEPT !.ctr[st.ptr[o.v]] = @ + 1] ELSE st, v |-> 0]
       \* a conversion counts: o.adds is what this one adds, by name
       [] o.op = "convert" -> [st |-> LET F[i \in 0..Len(o.adds)] == IF i = 0 THEN st ELSE LET t == Touch(F[i - 1], o.adds[i].n) IN [t EXCEPT !.ctr[o.adds[i].n] = @ + o.adds[i].v] IN F[Len(o.adds)], v |-> 0]
       \* starting over leaves what is stored alone
       [] o.op = "init" -> [st |-> st, v |-> 0]

\* the counters as a list sorted by name would need an order: compare as sets of pairs
Pairs(f) == {[n |-> x, v |-> f[x]] : x \in DOMAIN f}
SetOf(q) == {q[i] : i \in 1..Len(q)}
\* got: sequence of [v, c]: answer, and the counters shown (<<>>: not shown)
RECURSIVE Check(_, _, _, _)
Check(st, ops, got, i) ==
  IF i > Len(ops) THEN 0
  ELSE LET r == Step(st, ops[i])
       IN IF r.v # got[i].v \/ (got[i].c # <<>> /\ (SetOf(got[i].c) # Pairs(r.st.ctr) \/ Len(got[i].c) # Cardinality(DOMAIN r.st.ctr))) THEN i
          ELSE Check(r.st, ops, got, i + 1)
\* c.start: names of counters the conversion's modules ask for
Start(c) == LET F[i \in 0..Len(c.start)] == IF i = 0 THEN New ELSE Touch(F[i - 1], c.start[i]) IN F[Len(c.start)]
\* 0, or the first operation answered wrongly
Expected(c) == LET b == Check(Start(c), c.ops, c.got, 1) IN IF b = 0 THEN c.got ELSE <<b>>
=============================================================================
