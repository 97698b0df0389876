---------------------------- MODULE ConvString ----------------------------
(***************************************************************************)
(* Conversion strings.                                                     *)
(*                                                                         *)
(* A string is pipes "|" of phases ":" of codecs "," with arguments "#".   *)
(* The first phase of a pipe decodes (FROM), the last encodes (TO), the    *)
(* others and a phase alone in its pipe map (INTER).  White space does not *)
(* count, letter case of codec names does not matter.  A codec is a module *)
(* of the phase's type or an alias for text that takes its place, the      *)
(* arguments going to every codec in it that "," separates.                *)
(*                                                                         *)
(* Strings are sequences of character codes.  What modules and aliases     *)
(* there are comes from the directory listing and the alias files (NAMES). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, IOUtils, Json

FROM == 1  INTER == 2  TO == 3  FILTER == 4
Colon == 58  Bar == 124  CommaC == 44  Hash == 35  Amp == 38  Equal == 61  DotC == 46

Names == JsonDeserialize(IOEnv.NAMES)
SetOf(q) == {q[i] : i \in 1..Len(q)}
ModFrom == SetOf(Names.from)
ModInter == SetOf(Names.inter)
ModTo == SetOf(Names.to)
ModFilter == SetOf(Names.filter)
Mods(t) == CASE t = FROM -> ModFrom [] t = INTER -> ModInter [] t = TO -> ModTo [] t = FILTER -> ModFilter
Aliases(t) == CASE t = FROM -> Names.afrom [] t = INTER -> Names.ainter [] t = TO -> Names.ato [] t = FILTER -> Names.afilter

Up(ch) == IF ch \in 97..122 THEN ch - 32 ELSE ch
Upper(s) == [i \in 1..Len(s) |-> Up(s[i])]
White(ch) == ch \in {9, 10, 12, 13, 32}
NotWhite(ch) == ~White(ch)
Squeeze(s) == SelectSeq(s, NotWhite)

\* ------------------------------------------------------------ structure
RECURSIVE SplitAt(_, _, _, _, _)
SplitAt(s, ch, p, cur, acc) ==
  IF p > Len(s) THEN Append(acc, cur)
  ELSE IF s[p] = ch THEN SplitAt(s, ch, p + 1, <<>>, Append(acc, cur))
       ELSE SplitAt(s, ch, p + 1, Append(cur, s[p]), acc)
Split(s, ch) == SplitAt(s, ch, 1, <<>>, <<>>)
Has(s, ch) == \E i \in 1..Len(s) : s[i] = ch
First(s, ch) == CHOOSE i \in 1..Len(s) : s[i] = ch /\ \A j \in 1..(i - 1) : s[j] # ch
\* codec: name and arguments
Codec(t) == IF Has(t, Hash) THEN LET i == First(t, Hash) IN [name |-> SubSeq(t, 1, i - 1), arg |-> SubSeq(t, i + 1, Len(t))]
            ELSE [name |-> t, arg |-> <<>>]
Phase(t, ty) == [type |-> ty, codecs |-> LET q == Split(t, CommaC) IN [i \in 1..Len(q) |-> Codec(q[i])]]
Pipe(t) == LET q == Split(t, Colon) IN
  [i \in 1..Len(q) |-> Phase(q[i], IF Len(q) = 1 THEN INTER ELSE IF i = 1 THEN FROM ELSE IF i = Len(q) THEN TO ELSE INTER)]
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Join(Tail(q))
Parse(s) == LET q == Split(s, Bar) IN Join([i \in 1..Len(q) |-> Pipe(q[i])])
WellFormed(ps) == \A i \in 1..Len(ps) : \A j \in 1..Len(ps[i].codecs) : ps[i].codecs[j].name # <<>>

\* a codec's text: its arguments go behind each part that "," separates
PartText(t, arg) == IF arg = <<>> THEN t ELSE t \o <<IF Has(t, Hash) THEN Amp ELSE Hash>> \o arg
RECURSIVE Sep(_, _)
Sep(q, ch) == IF Len(q) = 0 THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<ch>> \o Sep(Tail(q), ch)
CodecText(c) == LET q == Split(c.name, CommaC) IN Sep([i \in 1..Len(q) |-> PartText(q[i], c.arg)], CommaC)
PhaseText(p) == Sep([i \in 1..Len(p.codecs) |-> CodecText(p.codecs[i])], CommaC)
\* "|" before a phase that starts a pipe, or that stands in none
RECURSIVE TextFrom(_, _, _)
TextFrom(ps, i, open) ==
  IF i > Len(ps) THEN <<>>
  ELSE LET ty == ps[i].type
           sep == IF ty = FROM \/ (ty = INTER /\ ~open) THEN Bar ELSE Colon
       IN (IF i = 1 THEN <<>> ELSE <<sep>>) \o PhaseText(ps[i])
          \o TextFrom(ps, i + 1, ty = FROM \/ (ty = INTER /\ open))
Text(ps) == TextFrom(ps, 1, FALSE)

\* --------------------------------------------------------------- aliases
LocaleName == <<76, 79, 67, 65, 76, 69>>
UnicodeName == <<85, 78, 73, 67, 79, 68, 69>>
Cns == <<67,78,83,49,49,54,52,51,45,85,78,73,67,79,68,69>>
Pass == <<80, 65, 83, 83>>
AsciiName == <<65, 83, 67, 73, 73>>
\* the character set of the locale's name
Charset(loc) == LET s == IF Has(loc, DotC) THEN SubSeq(loc, First(loc, DotC) + 1, Len(loc)) ELSE loc
                IN IF s \in {<<>>, <<67>>, <<80, 79, 83, 73, 88>>} THEN AsciiName ELSE s
None == <<0>>
Alias(t, name, loc) ==
  LET al == Aliases(t)
      I == {i \in 1..Len(al) : al[i].n = name}
  IN IF t \in {FROM, TO} /\ name = LocaleName THEN Charset(loc)
     ELSE IF t = INTER /\ name = UnicodeName THEN (IF Cns \in ModInter THEN Cns ELSE Pass)
     ELSE IF I = {} THEN None
     ELSE al[CHOOSE i \in I : \A j \in I : i <= j].x

\* ------------------------------------------------------------- arguments
EINVAL == 22
EOPNOTSUPP == 95
Hex(ch) == ch \in (48..57) \cup (65..70) \cup (97..102)
HexDatum(s) == Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : Hex(s[i])
Digit(ch) == ch \in 48..57
HexVal1(x) == IF Digit(x) THEN x - 48 ELSE IF x >= 97 THEN x - 87 ELSE x - 55
Bytes(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexVal1(s[2 * i - 1]) + HexVal1(s[2 * i])]
HexList(s) == LET q == Split(s, DotC) IN \A i \in 1..Len(q) : HexDatum(q[i])
\* a decimal number in front
Number(s) == Len(s) > 0 /\ (Digit(s[1]) \/ (s[1] \in {43, 45} /\ Len(s) > 1 /\ Digit(s[2])))
S(a, b) == a = b
FilterKnown(f) == f # <<>> /\ (Upper(f) \in ModFilter \/ (Alias(FILTER, Upper(f), <<>>) # None /\ Alias(FILTER, Upper(f), <<>>) \in ModFilter))

KFor == <<70, 79, 82>>  KError == <<69, 82, 82, 79, 82>>  KDrop == <<68, 82, 79, 80>>
KAfter == <<65, 70, 84, 69, 82>>  KBefore == <<66, 69, 70, 79, 82, 69>>
KMinLen == <<77, 73, 78, 45, 76, 69, 78>>  KLimit == <<76, 73, 77, 73, 84>>
KMark == <<77, 65, 82, 75>>  KUnmark == <<85, 78, 77, 65, 82, 75>>
KPrefix == <<80, 82, 69, 70, 73, 88>>  KSuffix == <<83, 85, 70, 70, 73, 88>>  KMode == <<77, 79, 68, 69>>
KAmbi1 == <<65,77,66,73,45,65,83,45,87,73,68,69>>  KAmbi2 == <<65,77,66,73,71,85,79,85,83,45,65,83,45,87,73,68,69>>
MAny == <<65, 78, 89>>  MEscape == <<69, 83, 67, 65, 80, 69>>  MInsert == <<73, 78, 83, 69, 82, 84>>
MReplace == <<82, 69, 80, 76, 65, 67, 69>>  MStrings == <<83, 84, 82, 73, 78, 71, 83>>
MTrim == <<84,82,73,77,45,87,73,68,84,72>>  MCount == <<67, 79, 85, 78, 84>>

Arg(t) == IF Has(t, Equal) THEN LET i == First(t, Equal) IN [key |-> SubSeq(t, 1, i - 1), has |-> TRUE, val |-> SubSeq(t, i + 1, Len(t))]
          ELSE [key |-> t, has |-> FALSE, val |-> <<>>]
Args(s) == IF s = <<>> THEN <<>> ELSE LET q == Split(s, Amp) IN [i \in 1..Len(q) |-> Arg(q[i])]
\* the last value given for a key
RECURSIVE LastOf(_, _, _, _)
LastOf(as, key, i, dflt) == IF i = 0 THEN dflt ELSE IF Upper(as[i].key) = key THEN [has |-> as[i].has, val |-> as[i].val] ELSE LastOf(as, key, i - 1, dflt)
NoVal == [has |-> FALSE, val |-> <<>>]
Modes == {<<72,69,88>>, <<49,54>>, <<68,69,67>>, <<49,48>>, <<79,67,84>>, <<56>>}
ForUnicode == {<<85,78,73,67,79,68,69>>, <<49>>, <<48,49>>}
ForByte == {<<66,89,84,69>>, <<51>>, <<48,51>>}

\* the first error among the arguments, in order (0: none)
RECURSIVE FirstErr(_, _, _)
FirstErr(as, E(_), i) == IF i > Len(as) THEN 0 ELSE LET e == E(as[i]) IN IF e # 0 THEN e ELSE FirstErr(as, E, i + 1)
Bad(c, e) == IF c THEN 0 ELSE e

AnyArg(a) == IF Upper(a.key) \in {KError, KDrop} THEN 0 ELSE Bad(HexList(a.key), EINVAL)
EscArg(a) ==
  LET k == Upper(a.key) v == Upper(a.val)
  IN CASE k \in {KPrefix, KSuffix} -> Bad(a.has /\ HexDatum(a.val), EINVAL)
       [] k = KMode /\ a.has -> Bad(v \in Modes, EINVAL)
       [] k = KFor /\ a.has -> Bad(v \in ForUnicode \cup ForByte, EOPNOTSUPP)
       [] OTHER -> EINVAL
InsKey(a) == Bad(Upper(a.key) \in {KAfter, KBefore}, EINVAL)
HexVal(v) == Bad(~v.has \/ HexList(v.val), EINVAL)
RepArg(a) == IF ~HexList(a.key) \/ a.key = <<>> THEN EINVAL ELSE Bad(~a.has \/ HexList(a.val), EINVAL)
StrArg(a) ==
  LET k == Upper(a.key)
  IN CASE k = KFor -> Bad(a.has, EINVAL) [] k = KMinLen -> Bad(a.has /\ Number(a.val), EINVAL)
       [] k \in {KAfter, KBefore} -> 0 [] OTHER -> EINVAL
TrimArg(a) == Bad(Upper(a.key) \in {KAmbi1, KAmbi2} \/ Number(a.key), EINVAL)
PassFromArg(a) == Bad(Upper(a.key) \in {KUnmark, KFor}, EINVAL)
PassToArg(a) == Bad(Upper(a.key) \in {KMark, KFor}, EINVAL)
PassInterArg(a) ==
  LET k == Upper(a.key)
  IN CASE k = KFor -> 0 [] k = KLimit -> Bad(a.has /\ Number(a.val), EINVAL) [] OTHER -> EINVAL
ForErr(as) == LET v == LastOf(as, KFor, Len(as), NoVal) IN Bad(~v.has \/ FilterKnown(v.val), EOPNOTSUPP)
Then(e, f) == IF e # 0 THEN e ELSE f
ArgErr(t, name, arg) ==
  LET as == Args(arg)
  IN CASE t \in {FROM, TO} /\ name = MAny -> FirstErr(as, AnyArg, 1)
       [] t = TO /\ name = MEscape -> FirstErr(as, EscArg, 1)
       [] t = INTER /\ name = MInsert ->
            Then(FirstErr(as, InsKey, 1), Then(HexVal(LastOf(as, KAfter, Len(as), NoVal)), HexVal(LastOf(as, KBefore, Len(as), NoVal))))
       [] t = INTER /\ name = MReplace -> Then(FirstErr(as, RepArg, 1), Bad(as # <<>>, EINVAL))
       [] t = INTER /\ name = MStrings ->
            Then(FirstErr(as, StrArg, 1), Then(ForErr(as), Then(HexVal(LastOf(as, KAfter, Len(as), NoVal)), HexVal(LastOf(as, KBefore, Len(as), NoVal)))))
       [] t = INTER /\ name = MTrim -> Then(FirstErr(as, TrimArg, 1), Bad(\E i \in 1..Len(as) : Upper(as[i].key) \notin {KAmbi1, KAmbi2}, EINVAL))
       [] t = FROM /\ name = Pass -> Then(FirstErr(as, PassFromArg, 1), ForErr(as))
       [] t = TO /\ name = Pass -> Then(FirstErr(as, PassToArg, 1), ForErr(as))
       [] t = INTER /\ name = Pass -> Then(FirstErr(as, PassInterArg, 1), ForErr(as))
       [] t = INTER /\ name = MCount -> ForErr(as)
       [] OTHER -> 0

\* ---------------------------------------------------------------- create
\* the first codec that is no module: <<phase, codec>>, or <<0, 0>>
Unknown(ps) ==
  LET U == {<<i, j>> \in (1..Len(ps)) \X (1..20) : j <= Len(ps[i].codecs) /\ Upper(ps[i].codecs[j].name) \notin Mods(ps[i].type)}
  IN IF U = {} THEN <<0, 0>> ELSE CHOOSE u \in U : \A v \in U : u[1] < v[1] \/ (u[1] = v[1] /\ u[2] <= v[2])
Fail(e) == [ok |-> 0, err |-> e, text |-> <<>>]
RECURSIVE CodecErrs(_, _, _)
CodecErrs(ps, i, j) ==
  IF i > Len(ps) THEN 0
  ELSE IF j > Len(ps[i].codecs) THEN CodecErrs(ps, i + 1, 1)
  ELSE Then(ArgErr(ps[i].type, Upper(ps[i].codecs[j].name), ps[i].codecs[j].arg), CodecErrs(ps, i, j + 1))
RECURSIVE Resolve(_, _, _)
Resolve(s, loc, fuel) ==
  LET ps == Parse(s) u == Unknown(ps)
  IN IF ~WellFormed(ps) THEN Fail(EINVAL)
     ELSE IF u = <<0, 0>> THEN
       LET e == CodecErrs(ps, 1, 1) IN IF e # 0 THEN Fail(e) ELSE [ok |-> 1, err |-> 0, text |-> Text(ps)]
     ELSE LET c == ps[u[1]].codecs[u[2]]
              x == Alias(ps[u[1]].type, Upper(c.name), loc)
          IN IF x = None \/ x = c.name \/ fuel = 0 THEN Fail(EOPNOTSUPP)
             ELSE Resolve(Text([ps EXCEPT ![u[1]].codecs[u[2]].name = x]), loc, fuel - 1)
Create(s, loc) == Resolve(Squeeze(s), loc, 40)

\* --------------------------------------------------------------- editing
\* index n of a list of m things, negative ones from the end; m + 1: behind the last
Index(n, m) == IF n >= m THEN m + 1 ELSE IF n >= 0 THEN n + 1 ELSE IF n >= -m THEN n + m + 1 ELSE 0
Verbatim(t) == [name |-> t, arg |-> <<>>]
InsertAt(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
Edit(op, s, codec, ty, n, m) ==
  LET ps == Parse(s)
      i == Index(n, Len(ps))
      j == IF i \in 1..Len(ps) THEN Index(m, Len(ps[i].codecs)) ELSE 0
      ph == [type |-> ty, codecs |-> <<Verbatim(codec)>>]
  IN IF ~WellFormed(ps) \/ i = 0 THEN None
     ELSE CASE op = "ip" -> Text(InsertAt(ps, i, ph))
            [] op = "rp" -> IF i > Len(ps) THEN None ELSE Text([ps EXCEPT ![i] = ph])
            [] op = "ic" -> IF i > Len(ps) \/ j = 0 THEN None ELSE Text([ps EXCEPT ![i].codecs = InsertAt(ps[i].codecs, j, Verbatim(codec))])
            [] op = "rc" -> IF i > Len(ps) \/ j = 0 \/ j > Len(ps[i].codecs) THEN None ELSE Text([ps EXCEPT ![i].codecs[j] = Verbatim(codec)])

\* ------------------------------------------------------------- listings
\* A module directory: files and the names its alias file starts lines with.
SCORER == 5
Less(a, b) == \E i \in 1..(Len(a) + 1) :
  /\ \A k \in 1..(i - 1) : k <= Len(b) /\ a[k] = b[k]
  /\ \/ i > Len(a) /\ Len(b) > Len(a)
     \/ i <= Len(a) /\ i <= Len(b) /\ a[i] < b[i]
RECURSIVE Insert(_, _)
Insert(q, x) == IF q = <<>> THEN <<x>> ELSE IF Less(x, q[1]) THEN <<x>> \o q ELSE <<q[1]>> \o Insert(Tail(q), x)
RECURSIVE Sort(_)
Sort(q) == IF q = <<>> THEN <<>> ELSE Insert(Sort(Tail(q)), q[1])
Shared == <<46, 115, 111>>
AliasName == <<97, 108, 105, 97, 115>>
EndsShared(f) == Len(f) > 3 /\ SubSeq(f, Len(f) - 2, Len(f)) = Shared
Plain(f) == ~Has(f, DotC) /\ f # AliasName
Code(t) == t \in {FILTER, SCORER}
RECURSIVE Gather(_, _, _)
Gather(files, t, i) ==
  IF i > Len(files) THEN <<>>
  ELSE (IF Code(t) /\ EndsShared(files[i]) THEN <<SubSeq(files[i], 1, Len(files[i]) - 3)>>
        ELSE IF ~Code(t) /\ Plain(files[i]) THEN <<files[i]>> ELSE <<>>) \o Gather(files, t, i + 1)
Listing(t, files, aliases) == IF t \in FROM..SCORER THEN Sort(Gather(files, t, 1) \o aliases) ELSE <<>>
Available(t, name, files) ==
  IF t \notin FROM..SCORER THEN 0
  ELSE IF (IF Code(t) THEN Upper(name) \o Shared ELSE Upper(name)) \in SetOf(files) THEN 1 ELSE 0

\* ------------------------------------------------------- helpers for typing
\* d: the five listings of a module directory, by type
Quotes == {34, 39}
Unquoted(s) ==
  LET a == IF s # <<>> /\ s[1] \in Quotes THEN Tail(s) ELSE s
  IN IF a # <<>> /\ a[Len(a)] \in Quotes THEN SubSeq(a, 1, Len(a) - 1) ELSE a
RECURSIVE LastIn(_, _, _)
LastIn(s, seps, i) == IF i = 0 \/ s[i] \in seps THEN i ELSE LastIn(s, seps, i - 1)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Distinct(_)
Distinct(q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o SelectSeq(Distinct(Tail(q)), LAMBDA x : x # Head(q))
\* what the last, unfinished name may become: a name for INTER, or for where it stands - behind : TO, otherwise FROM
Complete(s, d) ==
  LET u == Upper(Unquoted(s))
      k == LastIn(u, {58, 124, 44}, Len(u))     \* : | ,
      ph == LastIn(u, {58, 124}, Len(u))
      part == SubSeq(u, k + 1, Len(u))
      \* (two lists, in the order they are listed)
      all == d[INTER] \o d[IF ph > 0 /\ u[ph] = 58 THEN TO ELSE FROM]
      fit == Distinct(SelectSeq(all, LAMBDA x : StartsWith(x, part)))
  IN [i \in 1..Len(fit) |-> SubSeq(u, 1, k) \o fit[i]]
RECURSIVE TabLines(_)
TabLines(q) == IF q = <<>> THEN <<>> ELSE <<9>> \o Head(q) \o <<10>> \o TabLines(Tail(q))
Heads == <<<<91,70,114,111,109,93,10>>, <<91,73,110,116,101,114,93,10>>, <<91,84,111,93,10>>, <<91,70,105,108,116,101,114,93,10>>, <<91,83,99,111,114,101,114,93,10>>>>
RECURSIVE Listed(_, _)
Listed(d, i) == IF i > 5 THEN <<>> ELSE Heads[i] \o TabLines(d[i]) \o Listed(d, i + 1)
\* pages: [t, n, x, to]: a page's text, or where it sends to (kind/name)
KindNames == <<<<70,82,79,77>>, <<73,78,84,69,82>>, <<84,79>>, <<70,73,76,84,69,82>>>>
RECURSIVE FirstIn(_, _, _)
FirstIn(s, ch, i) == IF i > Len(s) \/ s[i] = ch THEN i ELSE FirstIn(s, ch, i + 1)
Usage == [rc |-> 1, out |-> <<>>]
RECURSIVE Man(_, _)
Man(c, arg) ==
  LET k == FirstIn(arg, 47, 1)
      kind == Upper(SubSeq(arg, 1, k - 1)) name == Upper(SubSeq(arg, k + 1, Len(arg)))
      T == {t \in 1..4 : KindNames[t] = kind}
  IN IF k > Len(arg) \/ T = {} THEN Usage
     ELSE LET t == CHOOSE t \in T : TRUE
              P == {i \in 1..Len(c.pages) : c.pages[i].t = t /\ c.pages[i].n = name}
              head == kind \o <<47>> \o name \o <<58, 10>>
              al == IF c.real = 1 THEN Alias(t, name, 0) ELSE None
          IN IF P # {} THEN LET p == c.pages[CHOOSE i \in P : TRUE]
                            IN IF p.to # <<>> THEN Man(c, p.to) ELSE [rc |-> 0, out |-> head \o p.x]
             ELSE [rc |-> 0, out |-> IF al # None THEN head \o <<65,108,105,97,115,32,116,111,32>> \o al \o <<10>>
                                     ELSE IF Available(t, name, c.files[t]) = 1
                                     THEN <<78,111,32,109,97,110,32,112,97,103,101,32,102,111,114,32,115,117,99,104,32,99,111,100,101,99,10>>
                                     ELSE <<78,111,32,115,117,99,104,32,99,111,100,101,99,10>>]

\* ------------------------------------------------- what the code answered
Expected(c) ==
  CASE c.op = "create" -> Create(c.s, c.loc)
    [] c.op = "usable" -> [ok |-> Create(c.s, c.loc).ok]
    [] c.op = "alias" -> [x |-> IF c.t \in FROM..FILTER THEN Alias(c.t, Upper(c.s), c.loc) ELSE None]
    [] c.op = "list" -> [l |-> Listing(c.t, c.files, c.aliases)]
    [] c.op = "check" -> [v |-> Available(c.t, c.s, c.files)]
    [] c.op = "complete" -> [l |-> Complete(c.s, [t \in 1..5 |-> Listing(t, c.files[t], c.aliases[t])])]
    [] c.op = "listing" -> [out |-> Listed([t \in 1..5 |-> Listing(t, c.files[t], c.aliases[t])], 1)]
    [] c.op = "man" -> Man(c, c.s)
    \* places in an instance: its phases are 1.., their codecs 0..
    [] c.op = "index" -> LET ps == Parse(c.s) i == Index(c.n, Len(ps))
                         IN [p |-> i, c |-> IF i \in 1..Len(ps) THEN Index(c.m, Len(ps[i].codecs)) - 1 ELSE -1]
    [] c.op = "datum" -> IF HexDatum(c.s) THEN [r |-> 0, l |-> <<Bytes(c.s)>>] ELSE [r |-> EINVAL, l |-> <<>>]
    [] c.op = "data" -> IF ~HexList(c.s) THEN [r |-> EINVAL, l |-> <<>>]
                        ELSE [r |-> 0, l |-> IF c.s = <<>> THEN <<>> ELSE LET q == Split(c.s, DotC) IN [i \in 1..Len(q) |-> Bytes(q[i])]]
    [] c.op \in {"ip", "ic", "rp", "rc"} -> [x |-> Edit(c.op, c.s, c.codec, c.t, c.n, c.m)]
=============================================================================
