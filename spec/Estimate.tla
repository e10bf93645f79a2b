------------------------------ MODULE Estimate ------------------------------
(* The estimator as a state machine: zones one by one, years one by one     *)
(* from the year before the first to the year after the last, and no        *)
(* further in a zone once a year two after its terminal year was seen.      *)
(* A processor is a function from years to sizes, constant from two years   *)
(* after its terminal year on.  Leaving early must lose nothing.            *)
EXTENDS Integers, FiniteSets
CONSTANTS Top, Sizes, Limit, Zones
VARIABLES sz, term, gen, req, ignore, todo, z, y, best, sizes, last, phase
vars == <<sz, term, gen, req, ignore, todo, z, y, best, sizes, last, phase>>
Years == 0..Top + 1
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Lo == Min(gen[1], req[1])
Hi == Max(gen[2] + 1, req[2])
(* A processor may become terminal in a year before the first.              *)
Init ==
  /\ sz \in [Zones -> [Years -> Sizes]] /\ term \in [Zones -> -2..Top]
  /\ \A n \in Zones : \A i \in Years : i >= term[n] + 2 /\ i > 0 /\ i - 1 >= term[n] + 2 => sz[n][i] = sz[n][i - 1]
  /\ gen \in {p \in (1..Top - 1) \X (1..Top - 1) : p[1] <= p[2]}
  /\ req \in {p \in (1..Top) \X (1..Top) : p[1] < p[2]}
  /\ ignore \in BOOLEAN
  /\ todo = Zones /\ z = "" /\ y = 0 /\ best = <<0, 0>> /\ sizes = [n \in {} |-> <<0, 0>>] /\ last = 0 /\ phase = "zone"
given == UNCHANGED <<sz, term, gen, req, ignore>>
PickZone == /\ phase = "zone" /\ todo # {}
            /\ \E n \in todo : z' = n /\ todo' = todo \ {n}
            /\ y' = Lo - 1 /\ best' = <<0, 0>> /\ phase' = "year" /\ given /\ UNCHANGED <<sizes, last>>
Year == /\ phase = "year"
        /\ best' = IF sz[z][y] > best[1] THEN <<sz[z][y], y>> ELSE best
        /\ IF y = Hi \/ y - 2 >= term[z]
           THEN /\ sizes' = [n \in DOMAIN sizes \cup {z} |-> IF n = z THEN best' ELSE sizes[n]]
                /\ last' = Max(last, y) /\ phase' = "zone" /\ UNCHANGED y
           ELSE y' = y + 1 /\ UNCHANGED <<sizes, last, phase>>
        /\ given /\ UNCHANGED <<todo, z>>
Largest == CHOOSE m \in Sizes \cup {0} : /\ \A n \in DOMAIN sizes : sizes[n][1] <= m
                                         /\ m = 0 \/ \E n \in DOMAIN sizes : sizes[n][1] = m
Finish == /\ phase = "zone" /\ todo = {}
          /\ phase' = IF Largest > Limit /\ ~ignore THEN "refused" ELSE "done"
          /\ given /\ UNCHANGED <<todo, z, y, best, sizes, last>>
End == phase \in {"done", "refused"} /\ UNCHANGED vars
Next == PickZone \/ Year \/ Finish \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InRange == phase = "year" => y \in Lo - 1..Hi /\ y \in Years
Over == phase \in {"done", "refused"}
Asked == Lo - 1..Hi
(* The largest size of all the years a database may be asked for, and the   *)
(* first year of it.                                                        *)
Covers ==
  Over => \A n \in Zones : n \in DOMAIN sizes /\
    LET m == sizes[n][1] IN
    /\ \A i \in Asked : sz[n][i] <= m
    /\ m # 0 => sizes[n][2] \in Asked /\ sz[n][sizes[n][2]] = m /\ \A i \in Asked : i < sizes[n][2] => sz[n][i] < m
Refuses == Over => (phase = "refused" <=> ~ignore /\ \E n \in Zones : \E i \in Asked : sz[n][i] > Limit)
(* What was asked for is covered: beyond the last year asked nothing new.   *)
LastYear == Over => \A n \in Zones : \A i \in Asked : i > last => sz[n][i] = sz[n][last]
Ends == <>Over
=============================================================================
