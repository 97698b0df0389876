----------------------------- MODULE MCUnicode -----------------------------
(* Sanity of Unicode.tla itself: byte strings grown one byte at a time over *)
(* the boundary bytes, and every code point block by block.                 *)
EXTENDS Unicode, FiniteSets
CONSTANTS Alphabet, MaxLen, Blocks
VARIABLES s, blk
Init == (s = <<>> /\ blk = -1) \/ (s = <<>> /\ blk \in Blocks)
Next == blk = -1 /\ Len(s) < MaxLen /\ \E b \in Alphabet : s' = Append(s, b) /\ UNCHANGED blk
Spec == Init /\ [][Next]_<<s, blk>>
\* the strict decoder takes exactly the well-formed sequences
Strict == Len(s) > 1 => ((Utf8Unit({}, s, 1).n = Len(s)) <=> WellFormed(s))
\* options only ever add to what is accepted
Opts == {"CESU", "LOOSE", "NUL", "OVERLONG", "SUPER"}
Monotonic == s # <<>> => \A o \in Opts \ {"CESU"} : Utf8Unit({}, s, 1).n > 0 => Utf8Unit({o}, s, 1) = Utf8Unit({}, s, 1)
Cps == {c \in (256 * blk)..(256 * blk + 255) : IsScalar(c)}
RoundTrip == blk >= 0 => \A c \in Cps :
  /\ c >= 128 => Utf8Unit({}, Utf8Enc(c), 1) = One(Len(Utf8Enc(c)), c)
  /\ Len(Utf8Enc(c)) > 1 => WellFormed(Utf8Enc(c))
  /\ \A le \in {TRUE, FALSE} : /\ Utf16Unit(le, Utf16Enc(c, le), 1) = One(Len(Utf16Enc(c, le)), c)
                               /\ Utf32Unit(le, Utf32Enc(Cell(c), le), 1) = One(4, c)
=============================================================================
