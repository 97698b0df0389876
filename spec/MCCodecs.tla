------------------------------ MODULE MCCodecs ------------------------------
(* Sanity of Codecs.tla: laws its conversions obey, on all short byte        *)
(* strings over an alphabet.                                                 *)
EXTENDS Codecs
CONSTANTS Alphabet, MaxLen
VARIABLE in
Init == in = <<>>
Next == Len(in) < MaxLen /\ \E a \in Alphabet : in' = Append(in, a)
Spec == Init /\ [][Next]_in

N(n) == [k |-> n]
U8 == [k |-> "UTF-8", opts |-> <<>>]
From(ks) == [t |-> 1, ks |-> ks]
To(ks) == [t |-> 3, ks |-> ks]
Pass(mark) == [k |-> "PASS", mark |-> mark, ft |-> -1, fr |-> <<>>]
Unpass(f, unmark) == [k |-> "PASS", unmark |-> unmark, ft |-> f, fr |-> <<>>]
Esc(pre, mode, for) == [k |-> "ESCAPE", pre |-> pre, suf |-> IF for = 1 THEN <<59>> ELSE <<>>, mode |-> mode, for |-> for]
Question == [k |-> "ANY", data |-> <<<<1, 63>>>>, c |-> <<"IERR">>]
Read == <<N("ASCII"), U8, N("BYTE")>>
Write == <<N("ASCII"), U8, N("BYTE"), N("00")>>
Run2(ps) == Convert(ps, IF in = <<>> THEN <<>> ELSE <<Cel(in)>>)
Text(ps) == Cat(Run2(ps).s, 1)
\* a fallback that keeps what is not understood loses nothing
Lossless == Text(<<From(Read), To(Write)>>) = in
\* and what it is asked to count is what would have been lost
Counted == Count(Run2(<<From(<<N("ASCII"), U8, Question>>), To(Write)>>).c, "IERR") = Count(Run2(<<From(<<N("ASCII"), U8>>), To(Write)>>).c, "IERR")
\* what is put by comes back, marked or not
PutBy == Text(<<From(Read), To(<<Pass(1)>>), From(<<Unpass(-1, 1)>>), To(Write)>>) = in
         /\ Text(<<From(Read), To(<<Pass(0)>>), From(<<Unpass(-1, 0)>>), To(Write)>>) = in
         /\ Run2(<<From(Read), To(<<Pass(0)>>), From(<<Unpass(-1, 1)>>), To(Write)>>).s = <<>>
\* escapes read back what they stand for
Escaped == /\ Text(<<From(<<N("BYTE")>>), To(<<Esc(<<37>>, 16, 3)>>), From(<<N("ESCAPE")>>), To(<<N("BYTE")>>)>>) = in
           /\ Text(<<From(<<N("BYTE")>>), To(<<Esc(<<92>>, 8, 3)>>), From(<<N("ESCAPE")>>), To(<<N("BYTE")>>)>>) = in
           /\ Text(<<From(<<N("BYTE")>>), To(<<N("HEX")>>), From(<<N("HEX")>>), To(<<N("BYTE")>>)>>) = in
           /\ LET once == <<From(<<N("00"), N("ASCII"), U8>>), To(<<Esc(<<38, 35>>, 10, 1)>>)>>
              IN Text(once \o <<From(<<N("NCR")>>), To(Write)>>) = Text(<<From(<<N("00"), N("ASCII"), U8>>), To(Write)>>)
\* stages that edit
Via(ks) == <<From(Read)>> \o [i \in 1..Len(ks) |-> [t |-> 2, ks |-> <<ks[i]>>]] \o <<To(Write)>>
Rails == Text(Via(<<N("WHITESPACE-DERAIL"), N("WHITESPACE-RERAIL")>>)) = in
         /\ \A c \in Set(Run2(Via(<<N("WHITESPACE-DERAIL")>>)).s) : c.b \notin {<<10>>, <<13>>, <<32>>}
Line(old, new) == [k |-> "REPLACE", old |-> old, new |-> new]
LineEnds == \* CRLF for LF and back
  LET lf == <<1, 10>> cr == <<1, 13>>
  IN 13 \notin Set(in) => Text(Via(<<Line(<<lf>>, <<cr, lf>>), Line(<<cr, lf>>, <<lf>>)>>)) = in
Picked == \* what is picked is no more than asked for, and from the front
  \A n \in 1..2 : LET q == Run2(<<From(Read), [t |-> 2, ks |-> <<[k |-> "PASS", lim |-> n, ft |-> 1, fr |-> <<>>], N("NULL")>>], To(<<Pass(0)>>)>>).s
                      all == SelectSeq(Run2(<<From(Read), To(<<Pass(0)>>)>>).s, LAMBDA c : c.b[1] = 1)
                  IN q = SubSeq(all, 1, IF Len(all) < n THEN Len(all) ELSE n)
Padded == LET nb == Cel(Nbsp) q == Run2(<<From(Read), To(<<Pass(0)>>)>>).s
          IN nb \notin Set(q) => Run2(<<From(Read), [t |-> 2, ks |-> <<[k |-> "AMBIGUOUS-PAD", pad |-> 1]>>], [t |-> 2, ks |-> <<[k |-> "AMBIGUOUS-UNPAD", pad |-> 1]>>], To(<<Pass(0)>>)>>).s = q
\* a phase that maps each cell and one that decodes see the same number of them however they are put
Widened == Len(Run2(<<From(<<N("BYTE")>>), To(<<Pass(0)>>)>>).s) = Len(in)
\* a log has all that came to it, line by line, and puts nothing out
Lines(ps) == SelectSeq(Cat(Run2(ps).log, 1), LAMBDA d : d # 10)
Ends10(ps) == Cardinality({i \in 1..Len(Cat(Run2(ps).log, 1)) : Cat(Run2(ps).log, 1)[i] = 10})
LogsAll == /\ Lines(<<From(Read), To(<<N("LOG")>>)>>) = Text(<<From(Read), To(<<N("BSDCONV")>>)>>)
           /\ Ends10(<<From(Read), To(<<N("LOG")>>)>>) = Len(Run2(<<From(Read), To(<<Pass(0)>>)>>).s)
           /\ Lines(<<From(<<N("LOG")>>), To(Write)>>) = HexText(in) /\ Ends10(<<From(<<N("LOG")>>), To(Write)>>) = Len(in)
           /\ Run2(<<From(Read), To(<<N("LOG")>>)>>).s = <<>> /\ Run2(<<From(<<N("LOG")>>), To(Write)>>).s = <<>>
\* behind others it has what they left, which is what would have been an error
LogsRest == LET f == <<N("ASCII"), U8>> t == <<N("ASCII")>>
            IN /\ Ends10(<<From(Append(f, N("LOG"))), To(Write)>>) = Count(Run2(<<From(f), To(Write)>>).c, "IERR")
               /\ Text(<<From(Append(f, N("LOG"))), To(Write)>>) = Text(<<From(f), To(Write)>>)
               /\ Ends10(<<From(Read), To(Append(t, N("LOG")))>>) = Count(Run2(<<From(Read), To(t)>>).c, "OERR")
               /\ Text(<<From(Read), To(Append(t, N("LOG")))>>) = Text(<<From(Read), To(t)>>)
=============================================================================
