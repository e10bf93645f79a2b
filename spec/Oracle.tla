------------------------------- MODULE Oracle -------------------------------
(* Prints the timelines the specification gives to the zones of a recorded  *)
(* source, so that they can be compared with an independent reading of the  *)
(* same data (the system's compiled TZif files; harness/oracle.py).         *)
EXTENDS Timeline, Json
Src == ndJsonDeserialize("cases.ndjson")[1]
VARIABLES n, done
Init == n \in DOMAIN Src.ext.zones /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ n' = n
        /\ JsonSerialize("tl-" \o Symbol(n) \o ".json",
             [zone |-> n, segs |-> LateMerge(SrcZone(Src.ext.zones, Src.ext.policies, n, Src.cfg, Src.lo, Src.hi))])
=============================================================================
