------------------------------- MODULE Trace -------------------------------
(* Judging what the real code did.  cases.ndjson has one recorded execution *)
(* per line; each is judged unit by unit (`Units` names the units of one    *)
(* recording, `Judge` returns the clauses of the property it breaks).       *)
EXTENDS Labels, Json
BW == INSTANCE Bytes WITH fn <- 0, hi <- 0, lo <- 0
C20(k, u_) == BW!C20(k, u_)
CL == INSTANCE Cli
C19(k, u_) == CL!C19(k, u_)
WR == INSTANCE Wrap WITH s <- 0, pc <- 0, copy <- 0, trap <- 0, db <- 0, status <- 0
C22(k, u_) == WR!C22(k, u_)
CONSTANTS Units(_), Judge(_, _)
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES c, u, verdict
Init == /\ c \in 1..Len(Cases)
        /\ u \in Units(Cases[c])
        /\ verdict = <<"pending">>
Next == /\ verdict = <<"pending">>
        /\ verdict' = SetToSeq(Judge(Cases[c], u))
        /\ verdict' # <<>> => PrintT(<<"BROKEN", Cases[c].id, u, verdict'>>)
        /\ UNCHANGED <<c, u>>
Judged == TRUE
=============================================================================
