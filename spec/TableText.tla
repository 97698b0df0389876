----------------------------- MODULE TableText -----------------------------
(***************************************************************************)
(* Mapping table sources as text, and what a codec made of one does.       *)
(*                                                                         *)
(* A source is a sequence of lines of character codes.  "#" starts a       *)
(* comment line; a key, white space and an output make an entry.  A key is *)
(* hexadecimal bytes, "*" for any byte, "," between cells, and "!" in      *)
(* front if letters also match in the other case.  An output is            *)
(* hexadecimal bytes with "," between cells, or "?" and data: a callback.  *)
(* The operator Callback says what the code behind it makes of the data.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

TMin(S) == CHOOSE x \in S : \A y \in S : x <= y
TMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Any == 999
Comma == 44
Blank(ch) == ch \in {9, 32}
Digit(ch) == CASE ch \in 48..57 -> ch - 48 [] ch \in 65..70 -> ch - 55 [] ch \in 97..102 -> ch - 87

\* ------------------------------------------------------------------- text
RECURSIVE SpanTo(_, _, _)
SpanTo(s, p, stop) == IF p > Len(s) \/ s[p] \in stop THEN p ELSE SpanTo(s, p + 1, stop)
RECURSIVE SkipBlank(_, _)
SkipBlank(s, p) == IF p <= Len(s) /\ Blank(s[p]) THEN SkipBlank(s, p + 1) ELSE p
\* cells of tokens
RECURSIVE Tokens(_, _, _, _)
Tokens(s, p, cell, cells) ==
  IF p > Len(s) THEN Append(cells, cell)
  ELSE CASE s[p] = Comma -> Tokens(s, p + 1, <<>>, Append(cells, cell))
         [] s[p] = 42    -> Tokens(s, p + 1, Append(cell, Any), cells)
         [] OTHER        -> Tokens(s, p + 2, Append(cell, 16 * Digit(s[p]) + Digit(s[p + 1])), cells)
ParseLine(s) ==
  LET k == SpanTo(s, 1, {9, 32})
      v == SkipBlank(s, k)
      w == SpanTo(s, v, {9, 32, 13, 10, 35})
      ci == s[1] = 33
      cb == v < w /\ s[v] = 63
      o == SubSeq(s, IF cb THEN v + 1 ELSE v, w - 1)
  IN [ci |-> ci, key |-> Tokens(SubSeq(s, IF ci THEN 2 ELSE 1, k - 1), 1, <<>>, <<>>),
      cb |-> cb, out |-> IF o = <<>> THEN <<>> ELSE Tokens(o, 1, <<>>, <<>>)]
Comment(s) == s # <<>> /\ s[1] = 35
Void(s) == SkipBlank(s, 1) > Len(s)
RECURSIVE ParseAll(_, _, _)
ParseAll(ls, i, acc) ==
  IF i > Len(ls) THEN acc
  ELSE ParseAll(ls, i + 1, IF Comment(ls[i]) \/ Void(ls[i]) THEN acc ELSE Append(acc, ParseLine(ls[i])))

\* ---------------------------------------------------------------- meaning
\* For bytes (a FROM table) a key is one cell; for cells it is a sequence of cells.
Other(u) == IF u \in 65..90 THEN u + 32 ELSE IF u \in 97..122 THEN u - 32 ELSE u
Exact(tok, u) == tok = Any \/ tok = u
Fits(tok, u, ci) == Exact(tok, u) \/ (ci /\ tok # Any /\ Other(tok) = u)
CellFits(kc, c, ci) == Len(kc) = Len(c) /\ \A j \in 1..Len(c) : Fits(kc[j], c[j], ci)
KeyFits(ln, w) == Len(ln.key) = Len(w) /\ \A i \in 1..Len(w) : CellFits(ln.key[i], w[i], ln.ci)
RECURSIVE CountExact(_, _, _)
CountExact(kc, c, j) == IF j > Len(c) THEN 0 ELSE (IF Exact(kc[j], c[j]) THEN 1 ELSE 0) + CountExact(kc, c, j + 1)
RECURSIVE LevelOf(_, _, _)
LevelOf(ln, w, i) == IF i > Len(w) THEN 0 ELSE CountExact(ln.key[i], w[i], 1) + LevelOf(ln, w, i + 1)
\* the line that decides about exactly w, among those with (or without) a callback; 0: none
Best(t, w, cb) ==
  LET ls == {i \in 1..Len(t) : t[i].cb = cb /\ KeyFits(t[i], w)} IN
  IF ls = {} THEN 0
  ELSE LET m == TMax({LevelOf(t[i], w, 1) : i \in ls}) IN TMin({i \in ls : LevelOf(t[i], w, 1) = m})
Dec(t, w) == LET p == Best(t, w, FALSE) IN IF p > 0 THEN p ELSE Best(t, w, TRUE)
\* length of the longest plain match at the start of a string of units; 0: none
RECURSIVE Longest(_, _, _, _)
Longest(Word(_), t, n, lo) == IF n < lo THEN 0 ELSE IF Best(t, Word(n), FALSE) > 0 THEN n ELSE Longest(Word, t, n - 1, lo)
MaxLen(t, from) == IF t = <<>> THEN 0 ELSE TMax({IF from THEN Len(t[i].key[1]) ELSE Len(t[i].key) : i \in 1..Len(t)})
Least(a, b) == IF a < b THEN a ELSE b

\* A table of bytes at position p: [n, out].  A callback takes over as soon as the walk reaches it.
RECURSIVE FirstCb(_, _, _, _)
FirstCb(Word(_), t, n, m) ==
  IF n > m THEN 0 ELSE IF Best(t, Word(n), FALSE) = 0 /\ Best(t, Word(n), TRUE) > 0 THEN n ELSE FirstCb(Word, t, n + 1, m)
FromUnit(Callback(_), t, s, p) ==
  LET m == Least(MaxLen(t, TRUE), Len(s) - p + 1)
      W(n) == <<SubSeq(s, p, p + n - 1)>>
      c == FirstCb(W, t, 1, m)
      n == Longest(W, t, m, 1)
  IN IF c > 0 THEN [n |-> c, out |-> Callback(t[Best(t, W(c), TRUE)].out)]
     ELSE IF n > 0 THEN [n |-> n, out |-> t[Best(t, W(n), FALSE)].out] ELSE [n |-> 0, out |-> <<>>]
\* A table of cells: a cell that is in the table only up to some point belongs to the
\* last callback on its way there.
RECURSIVE CbPrefix(_, _, _)
CbPrefix(t, c, k) == IF k = 0 THEN 0 ELSE LET b == Best(t, <<SubSeq(c, 1, k)>>, TRUE) IN
                     IF b > 0 /\ Best(t, <<SubSeq(c, 1, k)>>, FALSE) = 0 THEN b ELSE CbPrefix(t, c, k - 1)
CellUnit(Callback(_), t, s, p) ==
  LET m == Least(MaxLen(t, FALSE), Len(s) - p + 1)
      W(n) == SubSeq(s, p, p + n - 1)
      n == Longest(W, t, m, 1)
      c == CbPrefix(t, s[p], Len(s[p]))
      one == m > 0 /\ Best(t, W(1), FALSE) > 0
  IN IF c > 0 /\ ~one THEN [n |-> 1, out |-> Callback(t[c].out)]
     ELSE IF n > 0 THEN [n |-> n, out |-> t[Best(t, W(n), FALSE)].out] ELSE [n |-> 0, out |-> <<>>]

RECURSIVE RunTable(_, _, _, _, _, _, _)
RunTable(Callback(_), kind, t, s, p, out, err) ==
  IF p > Len(s) THEN [out |-> out, err |-> err]
  ELSE LET u == IF kind = "from" THEN FromUnit(Callback, t, s, p) ELSE CellUnit(Callback, t, s, p) IN
       IF u.n > 0 THEN RunTable(Callback, kind, t, s, p + u.n, out \o u.out, err)
       ELSE IF kind = "inter" THEN RunTable(Callback, kind, t, s, p + 1, Append(out, s[p]), err)
       ELSE RunTable(Callback, kind, t, s, p + 1, out, err + 1)

RECURSIVE JoinAll(_, _, _)
JoinAll(cs, i, acc) == IF i > Len(cs) THEN acc ELSE JoinAll(cs, i + 1, acc \o cs[i])
\* ------------------------------------------------------------------- walking
\* What the table debugger shows of a compiled table: the units of a key one by one, 256
\* between cells; after each, whether what was given so far is a key ("MATCH"), is one and
\* the beginning of others ("SUBMATCH"), is only a beginning ("CONTINUE"), or is neither.
RECURSIVE Units(_, _, _)
Units(key, i, acc) == IF i > Len(key) THEN acc ELSE Units(key, i + 1, acc \o (IF i = 1 THEN <<>> ELSE <<256>>) \o key[i])
Begins(u, ci, w) == Len(w) <= Len(u) /\ \A j \in 1..Len(w) : Fits(u[j], w[j], ci)
\* ts: the lines with their units
WalkBest(ts, w, cb) ==
  LET ls == {i \in 1..Len(ts) : ts[i].cb = cb /\ Len(ts[i].u) = Len(w) /\ Begins(ts[i].u, ts[i].ci, w)} IN
  IF ls = {} THEN 0
  ELSE LET m == TMax({CountExact(ts[i].u, w, 1) : i \in ls}) IN TMin({i \in ls : CountExact(ts[i].u, w, 1) = m})
Shown(ts, w) ==
  LET more == \E i \in 1..Len(ts) : Len(ts[i].u) > Len(w) /\ Begins(ts[i].u, ts[i].ci, w)
      p == WalkBest(ts, w, FALSE)
      c == WalkBest(ts, w, TRUE)
  IN CASE w = <<>> -> [st |-> "DEADEND", data |-> <<>>]
       [] p > 0 -> [st |-> IF more THEN "SUBMATCH" ELSE "MATCH", data |-> ts[p].out]
       [] c > 0 -> [st |-> IF more THEN "SUBMATCH_SUBROUTINE" ELSE "SUBROUTINE", data |-> ts[c].out]
       [] more -> [st |-> "CONTINUE", data |-> <<>>]
       [] OTHER -> [st |-> "DEADEND", data |-> <<>>]
RECURSIVE Walk(_, _, _, _, _)
Walk(ts, ops, i, w, acc) ==
  IF i > Len(ops) THEN acc
  ELSE IF ops[i] = -1 THEN Walk(ts, ops, i + 1, <<>>, acc)
  ELSE LET x == Append(w, ops[i])
           r == Shown(ts, x)
       IN Walk(ts, ops, i + 1, IF r.st = "DEADEND" THEN <<>> ELSE x, Append(acc, r))
WalkOf(lines, ops) ==
  LET t == ParseAll(lines, 1, <<>>)
      ts == [i \in 1..Len(t) |-> [cb |-> t[i].cb, ci |-> t[i].ci, u |-> Units(t[i].key, 1, <<>>), out |-> t[i].out]]
  IN Walk(ts, ops, 1, <<>>, <<>>)

\* the callback of the test module: 238 and the data
TestCb(d) == <<<<238>> \o (IF d = <<>> THEN <<>> ELSE d[1])>>
Flat(kind, r) == IF kind = "to" THEN [r EXCEPT !.out = JoinAll(@, 1, <<>>)] ELSE r
Expected(case) ==
  LET t == ParseAll(case.lines, 1, <<>>)
      r == [i \in 1..Len(case.qs) |-> RunTable(TestCb, case.kind, t, case.qs[i], 1, <<>>, 0)]
  IN IF case.kind = "walk" THEN WalkOf(case.lines, case.qs) ELSE [i \in 1..Len(case.qs) |-> Flat(case.kind, r[i])]
=============================================================================
