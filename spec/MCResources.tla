---------------------------- MODULE MCResources ----------------------------
(***************************************************************************)
(* How a create goes about it: codecs are loaded one by one (descriptor,   *)
(* map, code), then their code is asked to set up, one by one; any of      *)
(* these may fail, and what was done is undone.  Explored over all numbers *)
(* of codecs, with and without code, and all points of failure.            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS MaxCodecs
VARIABLES n, hascode, pc, i, fd, map, dl, set, result
vars == <<n, hascode, pc, i, fd, map, dl, set, result>>
Init == /\ n \in 1..MaxCodecs /\ hascode \in SUBSET (1..n)
        /\ pc = "open" /\ i = 1 /\ fd = {} /\ map = {} /\ dl = {} /\ set = {} /\ result = "none"
Go(p, j) == pc' = p /\ i' = j
Same(v) == UNCHANGED v
Fail(p) == pc' = p /\ UNCHANGED <<i, fd, map, dl, set, n, hascode, result>>
Open == pc = "open" /\ \/ fd' = fd \cup {i} /\ Go("map", i) /\ UNCHANGED <<map, dl, set, n, hascode, result>>
                       \/ Fail("unload")
Map == pc = "map" /\ \/ map' = map \cup {i} /\ Go("code", i) /\ UNCHANGED <<fd, dl, set, n, hascode, result>>
                     \/ fd' = fd \ {i} /\ Go("unload", i) /\ UNCHANGED <<map, dl, set, n, hascode, result>>
Next1 == IF i = n THEN Go("setup", 1) ELSE Go("open", i + 1)
Code == pc = "code" /\ \/ i \notin hascode /\ Next1 /\ UNCHANGED <<fd, map, dl, set, n, hascode, result>>
                       \/ i \in hascode /\ dl' = dl \cup {i} /\ Next1 /\ UNCHANGED <<fd, map, set, n, hascode, result>>
                       \* there is code that cannot be loaded
                       \/ i \in hascode /\ map' = map \ {i} /\ fd' = fd \ {i} /\ Go("unload", i) /\ UNCHANGED <<dl, set, n, hascode, result>>
Setup == pc = "setup" /\ \/ i > n /\ result' = "instance" /\ pc' = "done" /\ UNCHANGED <<i, fd, map, dl, set, n, hascode>>
                         \/ i <= n /\ i \notin dl /\ Go("setup", i + 1) /\ UNCHANGED <<fd, map, dl, set, n, hascode, result>>
                         \/ i <= n /\ i \in dl /\ set' = set \cup {i} /\ Go("setup", i + 1) /\ UNCHANGED <<fd, map, dl, n, hascode, result>>
                         \/ i <= n /\ i \in dl /\ Fail("teardown")
\* those before i
Teardown == pc = "teardown" /\ set' = set \ (1..(i - 1)) /\ Go("unload", n + 1) /\ UNCHANGED <<fd, map, dl, n, hascode, result>>
Unload == pc = "unload" /\ LET D == 1..(i - 1) IN fd' = fd \ D /\ map' = map \ D /\ dl' = dl \ D
          /\ result' = "error" /\ pc' = "done" /\ UNCHANGED <<i, set, n, hascode>>
Next == Open \/ Map \/ Code \/ Setup \/ Teardown \/ Unload
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NothingLeft == result = "error" => fd = {} /\ map = {} /\ dl = {} /\ set = {}
Whole == result = "instance" => fd = 1..n /\ map = 1..n /\ dl = hascode /\ set = hascode
Ends == <>(result # "none")
=============================================================================
