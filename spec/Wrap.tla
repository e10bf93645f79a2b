-------------------------------- MODULE Wrap --------------------------------
(* The shell wrappers tzcompiler.sh and copytz.sh as a state machine over   *)
(* what lies at the place of the copy, with failures and kills at each step,*)
(* and what must be true of the files when they end.                        *)
EXTENDS Str, SequencesExt, FiniteSetsExt, Functions, TLC

Nine == {"africa", "antarctica", "asia", "australasia", "backward", "etcetera", "europe", "northamerica", "southamerica"}

(***************************************************************************)
(* The machine.  A scenario says what is asked and what goes wrong.         *)
(*   copy: what is at the place of the copy: "absent", "old" (it was there  *)
(*   before), "part" (an unfinished copy), "raw", "nine" (pruned),          *)
(*   "done" (with its version);                                             *)
(*   db: "none", "part" or the tag whose database was made.                 *)
(***************************************************************************)
Scripts == {"tzcompiler", "copytz"}
Tags == {"v1", "v2", "main"}
Faults == {"", "copy fails", "killed at copy", "compiler fails", "killed at compiler"}
Usages == {"", "no repo", "one too many", "empty repo", "empty target"}
Scenarios == [script : Scripts, tag : {"", "nope"} \cup Tags, exists : {"", "dir", "file", "dangling"}, keep : BOOLEAN, fault : Faults, usage : Usages]
Sound(s) == /\ s.script = "copytz" => ~s.keep /\ s.fault \notin {"compiler fails", "killed at compiler"}
            /\ s.usage = "" \/ s.fault = ""
            /\ s.script = "tzcompiler" => s.usage \notin {"one too many", "empty target"}
Known(s) == s.tag # "nope"
VARIABLES s, pc, copy, trap, db, status
vars == <<s, pc, copy, trap, db, status>>
Init == /\ s \in {x \in Scenarios : Sound(x)}
        /\ copy = (IF s.exists = "" THEN "absent" ELSE "old")
        /\ pc = "args" /\ trap = FALSE /\ db = "none" /\ status = 255
End(code) == pc' = "exit" /\ status' = code
Args == pc = "args" /\ (IF s.usage # "" THEN End(1) ELSE pc' = "look" /\ UNCHANGED status) /\ UNCHANGED <<s, copy, trap, db>>
Look == pc = "look" /\ (IF copy # "absent" THEN End(1) ELSE pc' = "arm" /\ UNCHANGED status) /\ UNCHANGED <<s, copy, trap, db>>
Arm == pc = "arm" /\ trap' = (s.script = "tzcompiler" /\ ~s.keep) /\ pc' = "copy" /\ UNCHANGED <<s, copy, db, status>>
Copy == /\ pc = "copy"
        /\ CASE ~Known(s) -> End(1) /\ copy' = copy
             [] s.fault \in {"copy fails", "killed at copy"} -> End(1) /\ copy' \in {"part", "raw"}
             [] OTHER -> copy' = "raw" /\ pc' = "prune" /\ UNCHANGED status
        /\ UNCHANGED <<s, trap, db>>
Prune == pc = "prune" /\ copy' = "nine" /\ pc' = (IF s.script = "copytz" THEN "label" ELSE "compile") /\ UNCHANGED <<s, trap, db, status>>
Label == pc = "label" /\ copy' = "done" /\ End(0) /\ UNCHANGED <<s, trap, db>>
Compile == /\ pc = "compile"
           /\ CASE s.fault = "compiler fails" -> End(1) /\ db' \in {"none", "part"}
                [] s.fault = "killed at compiler" -> End(1) /\ db' \in {"none", "part", s.tag}
                [] OTHER -> db' = s.tag /\ End(0)
           /\ UNCHANGED <<s, copy, trap>>
Exit == pc = "exit" /\ pc' = "gone" /\ copy' = (IF trap THEN "absent" ELSE copy) /\ UNCHANGED <<s, trap, db, status>>
Next == Args \/ Look \/ Arm \/ Copy \/ Prune \/ Label \/ Compile \/ Exit
(* Invariants.                                                              *)
Untouched == s.exists # "" => copy = "old"
Cleaned == pc = "gone" /\ s.exists = "" /\ s.script = "tzcompiler" /\ ~s.keep => copy = "absent"
Right == pc = "gone" /\ status = 0 =>
           s.usage = "" /\ s.exists = "" /\ Known(s) /\ s.fault = ""
           /\ IF s.script = "tzcompiler" THEN db = s.tag ELSE copy = "done"
Works == pc = "gone" /\ s.usage = "" /\ s.exists = "" /\ Known(s) /\ s.fault = "" => status = 0
Ends == <>(pc = "gone")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* C22: k is one run: k.s the scenario; k.tags the files of each tag and    *)
(* k.work those of the working tree; k.before and k.after every file of the *)
(* scratch world; k.lib what the compiler makes of the nine files.          *)
(***************************************************************************)
Under(p, d) == HasPrefix(p, d \o "/")
C22(k, u) ==
  LET t == k.s
      known == t.tag = "" \/ t.tag \in DOMAIN k.tags
      src == IF t.tag = "" THEN k.work ELSE IF known THEN k.tags[t.tag] ELSE k.work
      nine == DOMAIN src \cap Nine
      allowed == t.usage = "" /\ t.exists = "" /\ known
      comp == t.script = "tzcompiler"
      good == allowed /\ t.fault = "" /\ (comp => k.lib.ok)
      outs == IF comp /\ allowed THEN {k.cwd \o "/" \o f : f \in DOMAIN k.lib.files} ELSE {}
      mine == allowed /\ (comp => t.keep)
      new == DOMAIN k.after \ DOMAIN k.before
      at(f) == k.target \o "/" \o f
      shown == {p \in DOMAIN k.after : Under(p, k.target) /\ ~HasPrefix(p, k.target \o "/.")}
      copied == /\ \A f \in nine : at(f) \in shown /\ k.after[at(f)] = src[f]
                /\ shown = {at(f) : f \in nine} \cup (IF comp THEN {} ELSE {at("version.txt")})
      clauses ==
       {<<"succeeds exactly when it can do what is asked", (k.status = 0) = good>>,
        <<"what was there is left alone", \A p \in DOMAIN k.before : p \in outs \/ (p \in DOMAIN k.after /\ k.after[p] = k.before[p])>>,
        <<"nothing else is left behind", \A p \in new : p \in outs \/ (mine /\ (p = k.target \/ Under(p, k.target)))>>,
        <<"the database of the version asked for",
          good /\ comp => \A f \in DOMAIN k.lib.files : k.cwd \o "/" \o f \in DOMAIN k.after /\ k.after[k.cwd \o "/" \o f] = k.lib.files[f]>>,
        <<"the nine files of the version asked for", good /\ mine => copied>>,
        <<"the version is noted", good /\ ~comp => k.version = t.tag>>}
  IN {x[1] : x \in {y \in clauses : ~y[2]}}
=============================================================================
