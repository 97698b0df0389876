-------------------------------- MODULE Cli --------------------------------
(* What may be found after the command line tool was run: on files in place, *)
(* or writing to its output. A case records what is found: every file is     *)
(* "old" (as it was), "new" (its complete conversion) or "bad" (anything     *)
(* else, gone included).                                                     *)
EXTENDS Naturals, Sequences
\* c.files, c.temps: how many files there are that there were not; c.exit: status, 256: killed
\* c.fault: nothing was made to fail ("none"), or what was; c.removing: removing a file was made to fail
\* c.kept: mode and owner of every new file are those of the old one; c.perms: setting them was made to fail
Done(c) == \A i \in 1..Len(c.files) : c.files[i] = "new"
InPlace(c) ==
  /\ \E k \in 0..Len(c.files) : \A i \in 1..Len(c.files) : c.files[i] = (IF i <= k THEN "new" ELSE "old")
  /\ c.exit = 0 => Done(c) /\ c.temps = 0
  /\ c.exit = 256 => c.temps <= 1
  /\ c.exit \notin {0, 256} /\ ~c.removing => c.temps = 0
  /\ ~c.fault => c.exit = (IF c.able THEN 0 ELSE 1)
  /\ ~c.able => c.exit # 0
  /\ ~c.perms => c.kept
\* c.out: "whole", "part" (a beginning of it), "bad"
Streamed(c) ==
  /\ \A i \in 1..Len(c.files) : c.files[i] = "old"
  /\ c.temps = 0
  /\ c.exit = 0 => c.out = "whole"
  \* (what is written after a write failed may leave a gap: the status says so)
  /\ ~c.reading /\ ~c.writing => c.out \in {"whole", "part"}
  /\ ~c.fault => c.exit = (IF c.able THEN 0 ELSE 1)
  /\ ~c.able => c.exit # 0
Allowed(c) == IF c.inplace THEN InPlace(c) ELSE Streamed(c)
Expected(c) == IF Allowed(c) THEN c.got ELSE <<"not allowed">>
=============================================================================
