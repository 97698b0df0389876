------------------------------- MODULE Score -------------------------------
(***************************************************************************)
(* Scores learned from texts: a file holds a score for every character,    *)
(* which grows with every time the character is seen, up to three.  Texts  *)
(* are scored by summing.  A list, where there is one, takes down every    *)
(* character when it is seen for the first time.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
C == INSTANCE Codecs

Most == 3
\* a file: function from the characters with a score to it
Of(f, v) == IF v \in DOMAIN f THEN f[v] ELSE 0
Put(f, v, s) == [x \in DOMAIN f \cup {v} |-> IF x = v THEN s ELSE f[x]]
Blank == [x \in {} |-> 0]
RECURSIVE Train(_, _, _)
Train(f, t, new) == \* -> [f, new]: the file after text t, and the characters it did not have
  IF t = <<>> THEN [f |-> f, new |-> new]
  ELSE LET v == Head(t) s == Of(f, v)
       IN Train(IF s < Most THEN Put(f, v, s + 1) ELSE f, Tail(t), IF s = 0 THEN Append(new, v) ELSE new)
RECURSIVE Sum(_, _)
Sum(f, t) == IF t = <<>> THEN 0 ELSE Of(f, Head(t)) + Sum(f, Tail(t))

\* ------------------------------------------------------- recorded histories
\* the characters among cells
Chars(s) == LET q == SelectSeq(s, C!IsChar) IN [i \in 1..Len(q) |-> C!CharOf(q[i])]
Word(v) == <<0, v \div 65536, (v \div 256) % 256, v % 256>>
RECURSIVE Words(_)
Words(q) == IF q = <<>> THEN <<>> ELSE Word(Head(q)) \o Words(Tail(q))
\* st: function from the files there are to what they hold.
\* o: a conversion [k, file, own, list, ps, texts]: "train" or "score" the texts (read as phases ps do)
\* one after another; own: the file given to it ("" none), else file; list: whether it has a list
Text(o, i) == C!Convert(o.ps, IF o.texts[i] = <<>> THEN <<>> ELSE <<C!Cel(o.texts[i])>>).s
With(st, n, f) == [x \in DOMAIN st \cup {n} |-> IF x = n THEN f ELSE st[x]]
Held(st, n) == IF n \in DOMAIN st THEN st[n] ELSE Blank
\* -> [f, new, outs]
RECURSIVE Go(_, _, _)
Go(o, i, r) ==
  IF i > Len(o.texts) THEN r
  ELSE LET s == Text(o, i) t == Chars(s) out == C!Cat(s, 1)
       IN IF o.k = "train" THEN LET z == Train(r.f, t, r.new) IN Go(o, i + 1, [f |-> z.f, new |-> z.new, outs |-> Append(r.outs, [out |-> out, n |-> 0])])
          ELSE Go(o, i + 1, [r EXCEPT !.outs = Append(@, [out |-> out, n |-> Sum(r.f, t)])])
Do(st, o) ==
  LET n == IF o.own # "" THEN o.own ELSE o.file
      r == Go(o, 1, [f |-> Held(st, n), new |-> <<>>, outs |-> <<>>])
      \* its own file is made where there is none, used or not
      st1 == IF o.k = "train" /\ o.file \notin DOMAIN st THEN With(st, o.file, Blank) ELSE st
  IN [st |-> IF o.k = "train" THEN With(st1, n, r.f) ELSE st1, v |-> [outs |-> r.outs, new |-> IF o.list = 1 THEN Words(r.new) ELSE <<>>]]
RECURSIVE All(_, _, _)
All(st, ops, i) ==
  IF i > Len(ops) THEN [st |-> st, vs |-> <<>>]
  ELSE LET r == Do(st, ops[i]) q == All(r.st, ops, i + 1) IN [q EXCEPT !.vs = <<r.v>> \o @]
\* files: sequence of [n, s]: name and sequence of <<character, score>> in order
FileOf(q) == LET D == {q[i][1] : i \in 1..Len(q)} IN [v \in D |-> (CHOOSE p \in {q[i] : i \in 1..Len(q)} : p[1] = v)[2]]
Listed(f) == LET q == SetToSortSeq(DOMAIN f, LAMBDA a, b : a < b) IN [i \in 1..Len(q) |-> <<q[i], f[q[i]]>>]
Expected(c) ==
  LET r == All([n \in {c.files[i].n : i \in 1..Len(c.files)} |-> FileOf((CHOOSE x \in {c.files[i] : i \in 1..Len(c.files)} : x.n = n).s)], c.ops, 1)
  IN [vs |-> r.vs, files |-> [i \in 1..Len(c.got.files) |-> [n |-> c.got.files[i].n, s |-> IF c.got.files[i].n \in DOMAIN r.st THEN Listed(r.st[c.got.files[i].n]) ELSE << >>]],
      there |-> [i \in 1..Len(c.all) |-> IF c.all[i] \in DOMAIN r.st THEN 1 ELSE 0]]
=============================================================================
