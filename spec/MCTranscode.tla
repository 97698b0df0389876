---------------------------- MODULE MCTranscode ----------------------------
(* Sanity of Transcode.tla: for every pair of Unicode encodings and every    *)
(* block of scalar values, converting there and back changes nothing.        *)
EXTENDS Transcode
CONSTANT Blocks
VARIABLES blk, a, b
Full == {"UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE", "GB18030"}
Ascii(n) == IF n \in {"UTF-8", "GB18030"} THEN <<[name |-> "ASCII", opts |-> <<>>]>> ELSE <<>>
Codecs(n) == Ascii(n) \o <<[name |-> n, opts |-> <<>>]>>
Init == blk \in Blocks /\ a \in Full /\ b \in Full
Next == UNCHANGED <<blk, a, b>>
Spec == Init /\ [][Next]_<<blk, a, b>>
Cps == SelectSeq([i \in 1..64 |-> 64 * blk + i - 1], LAMBDA c : IsScalar(c) /\ c # 0)
Cells == [i \in 1..Len(Cps) |-> Cell(Cps[i])]
Encode(n) == S!EncodeAll(Enc, Codecs(n), Cells, 1, <<>>, 0)
Reversible == Encode(a).err = 0 /\
  Expected([from |-> Codecs(a), to |-> Codecs(b), in |-> Encode(a).out]) = [out |-> Encode(b).out, ierr |-> 0, oerr |-> 0]
=============================================================================
