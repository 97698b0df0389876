------------------------------- MODULE MCCli -------------------------------
(* The tool converting files in place: every step may fail, and the process  *)
(* may be killed at any moment; what is found then must be allowed.          *)
EXTENDS Cli, FiniteSets
CONSTANTS NFiles, Blocks, Faults
VARIABLES files, temp, cur, pc, written, fails, exit, unl
vars == <<files, temp, cur, pc, written, fails, exit, unl>>
Init == /\ files = [i \in 1..NFiles |-> "old"] /\ temp = "none" /\ cur = 1 /\ pc = "open" /\ written = 0
        /\ fails = 0 /\ exit = 256 /\ unl = FALSE
Go(p) == pc' = p
Same(S) == UNCHANGED S
\* a step that may fail: what it does, where it goes; on failure what is next
Step(at, next, onfail) == /\ pc = at
                          /\ \/ Go(next) /\ UNCHANGED fails
                             \/ fails < Faults /\ fails' = fails + 1 /\ Go(onfail)
OpenIn == Step("open", "mktemp", "exit1") /\ Same(<<files, temp, cur, written, exit, unl>>)
MkTemp == /\ Step("mktemp", "copy", "exit1")
          /\ temp' = (IF pc' = "copy" THEN "part" ELSE temp) /\ written' = 0 /\ Same(<<files, cur, exit, unl>>)
Copy == /\ pc = "copy"
        /\ \/ written < Blocks /\ written' = written + 1 /\ Same(<<pc, fails>>)
           \/ written = Blocks /\ Go("close") /\ Same(<<written, fails>>)
           \/ fails < Faults /\ fails' = fails + 1 /\ Go("closebad") /\ Same(<<written>>)
        /\ Same(<<files, temp, cur, exit, unl>>)
Close == Step("close", "rename", "remove") /\ temp' = (IF pc' = "rename" THEN "full" ELSE temp) /\ Same(<<files, cur, written, exit, unl>>)
CloseBad == pc = "closebad" /\ Go("remove") /\ Same(<<files, temp, cur, written, fails, exit, unl>>)
Rename == /\ Step("rename", "next", "remove")
          /\ IF pc' = "next" THEN files' = [files EXCEPT ![cur] = IF temp = "full" THEN "new" ELSE "bad"] /\ temp' = "none" ELSE Same(<<files, temp>>)
          /\ Same(<<cur, written, exit, unl>>)
NextFile == /\ pc = "next" /\ Same(<<files, temp, written, fails, exit, unl>>)
            /\ IF cur < NFiles THEN cur' = cur + 1 /\ Go("open") ELSE Go("exit0") /\ Same(cur)
Remove == /\ pc = "remove" /\ Go("exit1")
          /\ \/ temp' = "none" /\ Same(<<fails, unl>>)
             \/ fails < Faults /\ fails' = fails + 1 /\ unl' = TRUE /\ Same(temp)
          /\ Same(<<files, cur, written, exit>>)
Exit == pc \in {"exit0", "exit1"} /\ exit' = (IF pc = "exit0" THEN 0 ELSE 1) /\ Go("end") /\ Same(<<files, temp, cur, written, fails, unl>>)
Next == OpenIn \/ MkTemp \/ Copy \/ Close \/ CloseBad \/ Rename \/ NextFile \/ Remove \/ Exit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Found == [inplace |-> TRUE, files |-> files, temps |-> IF temp = "none" THEN 0 ELSE 1, exit |-> exit, fault |-> fails > 0 \/ exit = 256,
          removing |-> unl, able |-> TRUE, kept |-> TRUE, perms |-> FALSE]
Held == Allowed(Found)
\* a file is never without its contents, and what was done stays done
Never == \A i \in 1..NFiles : files[i] \in {"old", "new"}
Stays == [][\A i \in 1..NFiles : files[i] = "new" => files'[i] = "new"]_vars
Ends == <>(pc = "end")
=============================================================================
