------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The conversion engine: a pipeline of phases, each with a list of codecs *)
(* that are mapping tables, run incrementally over input that arrives in   *)
(* arbitrary pieces.                                                       *)
(*                                                                         *)
(* The state follows the implementation: every phase reads the queue of    *)
(* the phase before it, remembers the codec being tried, the walk through  *)
(* its table, and the longest match so far, and rewinds to it (or to the   *)
(* next codec) when the walk dies.  The first phase of a conversion is a   *)
(* FROM phase and counts failures in ierr, the last one is a TO phase and  *)
(* counts them in oerr, INTER phases pass what they cannot match.          *)
(*                                                                         *)
(* Which phase moves next is left open: the outcome must not depend on it, *)
(* nor on how the input is cut into pieces.  The outcome is also given in  *)
(* closed form (Ref): at every position the first codec with any match     *)
(* wins and takes its longest match.                                       *)
(***************************************************************************)
EXTENDS Table, TLC

CONSTANTS Configs,    \* set of [id, phases]; phases: seq of [type, codecs]; codecs: seq of tables
          Inputs(_)   \* inputs to explore for a configuration

VARIABLES
  cfg,     \* the conversion
  input,   \* the whole input
  fed,     \* number of units fed so far
  ended,   \* the last piece has been fed
  q,       \* q[p]: units waiting for phase p (q[n+1]: the output)
  ph,      \* ph[p]: state of phase p
  ierr, oerr

vars == <<cfg, input, fed, ended, q, ph, ierr, oerr>>
N == Len(cfg.phases)

\* codec: index of the codec tried; pos: units of the queue walked;
\* best: <<>> or the longest match so far [len, out]; pend: something is undecided
Idle == [codec |-> 1, pos |-> 0, best |-> <<>>, pend |-> FALSE]

Init ==
  /\ cfg \in Configs
  /\ input \in Inputs(cfg)
  /\ fed = 0 /\ ended = FALSE
  /\ q = [p \in 1..Len(cfg.phases) + 1 |-> <<>>]
  /\ ph = [p \in 1..Len(cfg.phases) |-> Idle]
  /\ ierr = 0 /\ oerr = 0

Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)

Feed ==
  /\ ~ended
  /\ \E k \in 0..(Len(input) - fed) :
       /\ q' = [q EXCEPT ![1] = @ \o SubSeq(input, fed + 1, fed + k)]
       /\ fed' = fed + k
       /\ ended' \in (IF fed + k = Len(input) THEN {TRUE, FALSE} ELSE {FALSE})
       /\ k > 0 \/ ended'
  /\ UNCHANGED <<cfg, input, ph, ierr, oerr>>

Codecs(p) == cfg.phases[p].codecs
Emit(p, n, out, st) ==
  /\ q' = [q EXCEPT ![p] = Drop(@, n), ![p + 1] = @ \o out]
  /\ ph' = [ph EXCEPT ![p] = st]

\* the walk of the current codec died or cannot go on
Dead(p) ==
  LET s == ph[p] IN
  IF s.best # <<>> THEN Emit(p, s.best[1].len, s.best[1].out, Idle) /\ UNCHANGED <<ierr, oerr>>
  ELSE IF s.codec < Len(Codecs(p))
       THEN /\ ph' = [ph EXCEPT ![p] = [Idle EXCEPT !.codec = s.codec + 1]]
            /\ UNCHANGED <<q, ierr, oerr>>
       ELSE CASE cfg.phases[p].type = "from"  -> Emit(p, 1, <<>>, Idle) /\ ierr' = ierr + 1 /\ UNCHANGED oerr
              [] cfg.phases[p].type = "to"    -> Emit(p, 1, <<>>, Idle) /\ oerr' = oerr + 1 /\ UNCHANGED ierr
              [] cfg.phases[p].type = "inter" -> Emit(p, 1, <<Head(q[p])>>, Idle) /\ UNCHANGED <<ierr, oerr>>

\* phase p reads one more unit
Walk(p) ==
  /\ ph[p].pos < Len(q[p])
  /\ LET s == ph[p]
         t == Codecs(p)[s.codec]
         w == Take(q[p], s.pos + 1)
         def == Defined(t, w)
         ext == Extends(t, w)
     IN CASE def /\ ~ext -> Emit(p, Len(w), Lookup(t, w), Idle) /\ UNCHANGED <<ierr, oerr>>
          [] def /\ ext  -> /\ ph' = [ph EXCEPT ![p] = [s EXCEPT !.pos = Len(w), !.pend = TRUE,
                                                                 !.best = <<[len |-> Len(w), out |-> Lookup(t, w)]>>]]
                            /\ UNCHANGED <<q, ierr, oerr>>
          [] ~def /\ ext -> /\ ph' = [ph EXCEPT ![p] = [s EXCEPT !.pos = Len(w), !.pend = TRUE]]
                            /\ UNCHANGED <<q, ierr, oerr>>
          [] OTHER -> Dead(p)
  /\ UNCHANGED <<cfg, input, fed, ended>>

\* nothing more will come for phase p: it has to decide
Quiet(p) == ph[p].pos = Len(q[p])
Flush(p) ==
  /\ ended /\ ph[p].pend
  /\ Quiet(p)
  /\ \A r \in 1..p - 1 : Quiet(r) /\ ~ph[r].pend
  /\ Dead(p)
  /\ UNCHANGED <<cfg, input, fed, ended>>

Next == Feed \/ \E p \in 1..N : Walk(p) \/ Flush(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == ended /\ \A p \in 1..N : Quiet(p) /\ ~ph[p].pend

(***************************************************************************)
(* The closed form                                                         *)
(***************************************************************************)
Hits(t, s) == {n \in 1..Len(s) : n <= MaxKey(t) /\ Defined(t, Take(s, n))}
RECURSIVE RefPhase(_, _, _, _)
RefPhase(type, cs, s, acc) ==  \* acc: [out, err]
  IF s = <<>> THEN acc
  ELSE LET able == {k \in 1..Len(cs) : Hits(cs[k], s) # {}} IN
       IF able # {}
       THEN LET t == cs[Min(able)]  n == Max(Hits(t, s))
            IN RefPhase(type, cs, Drop(s, n), [acc EXCEPT !.out = @ \o Lookup(t, Take(s, n))])
       ELSE RefPhase(type, cs, Tail(s),
                     IF type = "inter" THEN [acc EXCEPT !.out = Append(@, Head(s))]
                                       ELSE [acc EXCEPT !.err = @ + 1])
RECURSIVE RefFrom(_, _, _)
RefFrom(phs, s, r) ==
  IF phs = <<>> THEN [r EXCEPT !.out = s]
  ELSE LET p == Head(phs)
           a == RefPhase(p.type, p.codecs, s, [out |-> <<>>, err |-> 0])
       IN RefFrom(Tail(phs), a.out,
                  [r EXCEPT !.ierr = @ + (IF p.type = "from" THEN a.err ELSE 0),
                            !.oerr = @ + (IF p.type = "to" THEN a.err ELSE 0)])
Ref(c, s) == RefFrom(c.phases, s, [out |-> <<>>, ierr |-> 0, oerr |-> 0])

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ Take(b, Len(a)) = a

\* ------------------------------------------------------------ properties
Correct == Done => LET r == Ref(cfg, input) IN q[N + 1] = r.out /\ ierr = r.ierr /\ oerr = r.oerr
\* what has been emitted is never taken back
Monotone == IsPrefixOf(q[N + 1], Ref(cfg, input).out)
ErrBound == ierr <= Ref(cfg, input).ierr /\ oerr <= Ref(cfg, input).oerr
\* once all input is in, the engine always finishes
Terminates == <>Done
NoStall == Done \/ ENABLED Next
=============================================================================
