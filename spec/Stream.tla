------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* Decoding a byte string with a list of codecs, in closed form (the FROM  *)
(* phase of Engine.tla for codecs that are programs): at every position    *)
(* the first codec that recognises something there takes what it           *)
(* recognises; if none does, one byte is skipped and counted.              *)
(*                                                                         *)
(* A codec is an operator Unit(k, s, p) giving, for codec k at position p  *)
(* of s, [n, out]: n units consumed (0: nothing recognised) and the cells  *)
(* they stand for.  A cell is a non-empty sequence of bytes; cells that    *)
(* start with 1 are Unicode characters, big endian without leading zeros.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Unit(_, _, _)

None == [n |-> 0, out |-> <<>>]

RECURSIVE FirstUnit(_, _, _, _)
FirstUnit(ks, i, s, p) ==
  IF i > Len(ks) THEN None
  ELSE LET u == Unit(ks[i], s, p) IN IF u.n > 0 THEN u ELSE FirstUnit(ks, i + 1, s, p)

RECURSIVE Decode(_, _, _, _, _)
Decode(ks, s, p, out, err) ==
  IF p > Len(s) THEN [out |-> out, err |-> err]
  ELSE LET u == FirstUnit(ks, 1, s, p) IN
       IF u.n > 0 THEN Decode(ks, s, p + u.n, out \o u.out, err)
                  ELSE Decode(ks, s, p + 1, out, err + 1)
DecodeAll(ks, s) == Decode(ks, s, 1, <<>>, 0)

\* encoding: Enc(k, cell) is [ok, out]; the first codec that can, does
RECURSIVE FirstEnc(_, _, _, _)
FirstEnc(Enc(_, _), ks, i, c) ==
  IF i > Len(ks) THEN [ok |-> FALSE, out |-> <<>>]
  ELSE LET e == Enc(ks[i], c) IN IF e.ok THEN e ELSE FirstEnc(Enc, ks, i + 1, c)
RECURSIVE EncodeAll(_, _, _, _, _, _)
EncodeAll(Enc(_, _), ks, cs, i, out, err) ==
  IF i > Len(cs) THEN [out |-> out, err |-> err]
  ELSE LET e == FirstEnc(Enc, ks, 1, cs[i]) IN
       IF e.ok THEN EncodeAll(Enc, ks, cs, i + 1, out \o e.out, err)
               ELSE EncodeAll(Enc, ks, cs, i + 1, out, err + 1)
=============================================================================
