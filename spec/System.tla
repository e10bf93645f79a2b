------------------------------- MODULE System -------------------------------
(* The compiler as a state machine: it reads the source files line by line, *)
(* closes the extracted records, performs the passes of the transformation  *)
(* one by one, and ends either with a database or with a refusal.           *)
(* What must be true of every behaviour is stated below as invariants; the  *)
(* clauses of Props are the same that judge recordings of the real code.    *)
EXTENDS Props, Json
CONSTANTS Worlds           \* a set of [id, cfg, files]
VARIABLES w, phase, fi, li, rd, pi, st
vars == <<w, phase, fi, li, rd, pi, st>>

Lines(n) == IF FileNames[n] \in DOMAIN w.files THEN w.files[FileNames[n]] ELSE <<>>
Nothing == Load([include |-> <<>>], Empty, Empty, Empty)
Init == /\ w \in Worlds
        /\ phase = "read" /\ fi = 1 /\ li = 1 /\ rd = Start /\ pi = 1
        /\ st = Nothing
Line == /\ phase = "read" /\ fi <= Len(FileNames) /\ li <= Len(Lines(fi))
        /\ rd' = ReadLine(rd, Lines(fi)[li]) /\ li' = li + 1
        /\ UNCHANGED <<w, phase, fi, pi, st>>
EndFile == /\ phase = "read" /\ fi <= Len(FileNames) /\ li > Len(Lines(fi))
           /\ fi' = fi + 1 /\ li' = 1 /\ rd' = NextFile(rd)
           /\ UNCHANGED <<w, phase, pi, st>>
Close == /\ phase = "read" /\ fi > Len(FileNames)
         /\ phase' = IF rd.fatal THEN "refused" ELSE "transform"
         /\ st' = Load(w.cfg, rd.pol, rd.zone, LinksOf(rd))
         /\ UNCHANGED <<w, fi, li, rd, pi>>
Pass == /\ phase = "transform" /\ pi <= Len(Passes)
        /\ st' = Apply(Passes[pi], st) /\ pi' = pi + 1
        /\ phase' = IF st'.err # "" THEN "refused"
                    ELSE IF pi = Len(Passes) THEN "done" ELSE "transform"
        /\ UNCHANGED <<w, fi, li, rd>>
End == phase \in {"done", "refused"} /\ UNCHANGED vars
Next == Line \/ EndFile \/ Close \/ Pass \/ End
Spec_ == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* The model's own result in the form of a recording.                      *)
(***************************************************************************)
Ids(S) == [n \in S |-> HashOf(n)]
Why(S) == [n \in S |-> <<"removed">>]
Texts(f) == [n \in DOMAIN f |-> MapSeq(SetToSeq(f[n]), LAMBDA x : x[1] \o " " \o x[2])]
K == [cfg |-> w.cfg, files |-> w.files,
      ext |-> [ok |-> ~rd.fatal, policies |-> rd.pol, zones |-> rd.zone, links |-> LinksOf(rd),
               invalid |-> <<rd.bad[1], rd.bad[2], BadLinks(rd)>>, ignored |-> <<0, 0, 0>>],
      tr |-> IF phase = "refused" THEN [ok |-> FALSE] ELSE
        [ok |-> TRUE, policies |-> st.P, links |-> st.L,
         zones |-> [n \in Names(st.Z) |->
            [lower |-> st.Z[n].low, upper |-> st.Z[n].upp, lowerEra |-> st.Z[n].lowerEra,
             upperEra |-> st.Z[n].upperEra, eras |-> st.Z[n].eras]],
         zone_ids |-> Ids(Names(st.Z)), link_ids |-> Ids(Names(st.L)),
         remZ |-> Why(st.remZ), remP |-> Why(st.remP), remL |-> Why(st.remL),
         noteZ |-> Texts(st.noteZ), noteP |-> Texts(st.noteP),
         origMin |-> st.orig[1], origMax |-> st.orig[2],
         genMin |-> st.gen[1], genMax |-> st.gen[2],
         lower |-> st.lower, upper |-> st.upper,
         startAcc |-> st.acc[1], untilAcc |-> st.acc[2]]]
Over == phase \in {"done", "refused"}

(***************************************************************************)
(* Invariants: reading.                                                    *)
(***************************************************************************)
SeqTotal(f) == FoldLeft(LAMBDA a, n : a + Len(f[n]), 0, SetToSeq(DOMAIN f))
Read == rd.seen[1] + rd.seen[2] + rd.seen[3] + rd.seen[4]
InkLines(n) == Cardinality({i \in 1..Len(Lines(n)) : StripLine(Lines(n)[i]) # ""})
LineAccounting ==
  /\ SeqTotal(rd.pol) + rd.bad[1] = rd.seen[1]
  /\ SeqTotal(rd.zone) + rd.bad[2] = rd.seen[2]
  /\ SeqTotal(rd.link) = rd.seen[3]
  /\ Over /\ ~rd.fatal => Read = FoldLeft(LAMBDA a, n : a + InkLines(n), 0, [i \in 1..Len(FileNames) |-> i])
  /\ Over /\ ~rd.fatal => Cardinality(DOMAIN LinksOf(rd)) + BadLinks(rd) = rd.seen[3]
ReadRight == Over => C01(K, "all") = {}

(***************************************************************************)
(* Invariants: during the passes.                                          *)
(***************************************************************************)
Conserved ==
  phase \in {"transform", "done"} =>
    /\ Names(st.Z) \cup st.remZ = DOMAIN rd.zone /\ Names(st.Z) \cap st.remZ = {}
    /\ Names(st.P) \cup st.remP = DOMAIN rd.pol /\ Names(st.P) \cap st.remP = {}
    /\ Names(st.L) \cup st.remL = DOMAIN LinksOf(rd) /\ Names(st.L) \cap st.remL = {}
(* Records only ever shrink, flags are only ever raised.                    *)
Monotone ==
  [][phase = "transform" /\ phase' \in {"transform", "done"} =>
      /\ Names(st'.Z) \subseteq Names(st.Z) /\ Names(st'.P) \subseteq Names(st.P)
      /\ Names(st'.L) \subseteq Names(st.L)
      /\ \A n \in Names(st'.Z) :
           /\ Len(st'.Z[n].eras) <= Len(st.Z[n].eras)
           /\ st.Z[n].lowerEra => st'.Z[n].lowerEra
           /\ st.Z[n].upperEra => st'.Z[n].upperEra
      /\ \A n \in DOMAIN st.noteZ : st.noteZ[n] \subseteq Of(st'.noteZ, n)
      /\ \A n \in DOMAIN st.noteP : st.noteP[n] \subseteq Of(st'.noteP, n)]_vars
(* An era lost means a flag raised.                                         *)
EraLossFlagged ==
  phase \in {"transform", "done"} =>
    \A n \in Names(st.Z) : Len(st.Z[n].eras) < Len(rd.zone[n]) =>
       st.Z[n].lowerEra \/ st.Z[n].upperEra

(* Every record is that of a line of its own name, in the order of lines.   *)
Follow(part, whole) ==       \* part is a subsequence of whole
  FoldLeft(LAMBDA i, x : IF i <= Len(part) /\ part[i] = x THEN i + 1 ELSE i, 1, whole) = Len(part) + 1
RawOf(recs) == MapSeq(recs, LAMBDA r : r.raw)
Truthful ==
  phase \in {"transform", "done"} =>
    /\ \A n \in Names(st.P) :
         LET R == SelectSeq(st.P[n].rules, LAMBDA r : ~r.anchor) IN
         /\ Follow(RawOf(R), RawOf(rd.pol[n]))
         /\ \A i \in 1..Len(R) : LET x == RuleOf(R[i].raw).r IN
              R[i].raw[2] = n /\ x.from_year = R[i].from_year /\ x.to_year = R[i].to_year /\ x.in_month = R[i].in_month
         /\ \A i \in 1..Len(st.P[n].rules) : st.P[n].rules[i].raw \in Range(RawOf(rd.pol[n]))
    /\ \A n \in Names(st.Z) :
         /\ Follow(RawOf(st.Z[n].eras), RawOf(rd.zone[n]))
         /\ \A i \in 1..Len(st.Z[n].eras) : LET e == st.Z[n].eras[i]  x == EraOf(e.raw).e IN
              e.until_year \in {x.until_year, Infinity} /\ e.format = x.format

(***************************************************************************)
(* Invariants: the result.                                                 *)
(***************************************************************************)
Accepted == phase = "done"
InvC02 == Accepted => \A n \in ZoneUnits(K) : C02(K, n) = {}
InvC23 == Accepted => \A n \in ByYearUnits(K) : C23(K, n) = {}
InvC03 == Accepted => \A n \in FlagUnits(K) : C03(K, n) = {}
InvC04 == Over => C04(K, "all") = {}
InvC05 == Accepted => C05(K, "all") = {}
InvC06 == Over => C06(K, "all") = {}
InvC07 == Over => C07(K, "all") = {}
InvC10 == Over => C10(K, "all") = {}
InvC16 == Over => C16(K, "all") = {}
Ends == <>Over
=============================================================================
