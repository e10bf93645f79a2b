------------------------------- MODULE Wraps -------------------------------
(* Scenarios of the wrappers for the real scripts: every scenario of the    *)
(* machine, in places with awkward names; those which get as far as copying *)
(* in every place.                                                          *)
EXTENDS Wrap, Json
WhereV == <<"work", "my work", "cdpath", "dash", "dashes">>
RepoV == <<"src/tz", "my src/tz", "../src/tz", "src/tz/">>
(* Work out once what is needed for each. *)
Run(x, w, r) == [s |-> x, where |-> WhereV[w], repo |-> RepoV[r]]
Goes(x) == x.usage = "" /\ x.exists = "" /\ Known(x)
(* Only the target of copytz.sh is named by its user.                       *)
Places(x) == IF x.script = "copytz" THEN 1..5 ELSE 1..3
Runs == UNION {{Run(x, w, r) : w \in 1..3, r \in 1..4} \cup {Run(x, w, RandomElement(1..4)) : w \in Places(x)} :
                 x \in {y \in Scenarios : Sound(y) /\ Goes(y)}}
        \cup {Run(x, RandomElement(Places(x)), RandomElement(1..4)) : x \in {y \in Scenarios : Sound(y) /\ ~Goes(y)}}
ASSUME LET seq == SetToSeq(Runs) IN
  ndJsonSerialize("wraps.ndjson", [i \in 1..Len(seq) |-> seq[i] @@ [id |-> "wrap" \o ToString(i)]])
=============================================================================
