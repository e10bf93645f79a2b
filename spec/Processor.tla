----------------------------- MODULE Processor -----------------------------
(* How the target libraries read a database: one year at a time.            *)
(* A processor asked about year y looks at the eras that overlap the months *)
(* from December before to January after, and for each of them at the       *)
(* occurrences of its rules in the years the overlap touches, and at the    *)
(* last occurrence of each rule before; everything earlier or later is      *)
(* never read.  Written after archive/zone_processor.py (14 months, all     *)
(* candidates, active ones selected), and independent of Timeline: no       *)
(* state is carried from one year to the next.                              *)
(*                                                                          *)
(* A moment is [t, f]: day and second, and the clock they are read on: "w"  *)
(* wall, "s" standard, "u" universal time.                                  *)
EXTENDS Timeline

Mark(day, secs, f) == [t |-> Instant(day, secs), f |-> f]
Month1(y, m) == <<DayNum(y, m, 1), 0>>
YearOf(t) == LET y == YearFloor(t) IN
             CHOOSE z \in y..y + 3 : NotAfter(Jan1(z), t) /\ Before(t, Jan1(z + 1))

(* The moment on another clock, given the offset and saving in force before. *)
On(m, f, off, save) ==
  LET u == Shift(m.t, -(IF m.f = "u" THEN 0 ELSE off) - (IF m.f = "w" THEN save ELSE 0))
  IN IF m.t = Always THEN Always
     ELSE IF m.f = f THEN m.t
     ELSE Shift(u, (IF f = "u" THEN 0 ELSE off) + (IF f = "w" THEN save ELSE 0))

UntilMark(e) == IF e.uy = Infinity THEN [t |-> Never, f |-> "w"]
                ELSE Mark(DayNum(e.uy, e.um, e.ud), e.us, e.uf)

(***************************************************************************)
(* The eras of the window.                                                 *)
(***************************************************************************)
Matches(eras, lo, hi) ==
  LET from(i) == IF i = 1 THEN [t |-> Always, f |-> "w"] ELSE UntilMark(eras[i - 1])
      in == {i \in 1..Len(eras) : Before(from(i).t, hi) /\ Before(lo, UntilMark(eras[i]).t)}
      idx == Sorted(in)
  IN [k \in 1..Len(idx) |->
       LET i == idx[k] IN
       [e |-> eras[i],
        a |-> IF Before(from(i).t, lo) THEN [t |-> lo, f |-> "w"] ELSE from(i),
        b |-> IF Before(hi, UntilMark(eras[i]).t) THEN [t |-> hi, f |-> "w"] ELSE UntilMark(eras[i])]]

(***************************************************************************)
(* The candidates of an era: every occurrence in the years it touches, and  *)
(* the one before.  tr is [m, off, save, let, e].                           *)
(***************************************************************************)
RuleMark(r, y) == IF y <= MinYear THEN [t |-> Always, f |-> "w"]
                  ELSE Mark(OnDayNum(y, r.m, r.w, r.d), r.at, r.suf)
Candidates(mt, rules) ==
  LET sy == YearOf(mt.a.t)
      by == YearOf(mt.b.t)
      ey == IF mt.b.t = Jan1(by) THEN by - 1 ELSE by
      years(r) == {y \in sy..ey : r.fy <= y /\ y <= r.ty}
                  \cup (IF r.fy < sy THEN {MinOf(r.ty, sy - 1)} ELSE {})
      all == UNION {{<<i, y>> : y \in years(rules[i])} : i \in 1..Len(rules)}
      key(x) == RuleMark(rules[x[1]], x[2]).t \o x
      S == SetToSortSeq(all, LAMBDA p, q : TupleLt(key(p), key(q)))
  IN MapSeq(S, LAMBDA x :
       [m |-> RuleMark(rules[x[1]], x[2]), save |-> rules[x[1]].save,
        let |-> rules[x[1]].let, e |-> mt.e])

(* Each with its time on the three clocks, read with the saving of the one  *)
(* before it; the first with its own.                                       *)
Read3(c, off) ==
  [i \in 1..Len(c) |->
     LET p == IF i = 1 THEN c[1] ELSE c[i - 1]
     IN [c |-> c[i], w |-> On(c[i].m, "w", off, p.save),
         s |-> On(c[i].m, "s", off, p.save), u |-> On(c[i].m, "u", off, p.save)]]
OnClock(x, f) == CASE f = "w" -> x.w [] f = "s" -> x.s [] f = "u" -> x.u

(* Those that fall into the era, led by the one in force when it begins,    *)
(* which takes the time of the beginning.  (So does one that falls exactly  *)
(* on it: the archived code left it its own time, read with the offset of   *)
(* the wrong era.)                                                          *)
Active(mt, rules) ==
  LET x == Read3(Candidates(mt, rules), mt.e.off)
      early == {i \in 1..Len(x) : Before(OnClock(x[i], mt.a.f), mt.a.t)}
      here == {i \in 1..Len(x) : OnClock(x[i], mt.a.f) = mt.a.t}
      in == {i \in 1..Len(x) : i \notin early
              /\ (i \in here \/ Before(OnClock(x[i], mt.b.f), mt.b.t))}
      last == CHOOSE i \in early : \A j \in early : NotAfter(x[j].w, x[i].w) /\ (x[j].w = x[i].w => j <= i)
      idx == Sorted(in)
      inside == [k \in 1..Len(idx) |-> [x[idx[k]].c EXCEPT !.m =
                   IF idx[k] \in here THEN mt.a ELSE [t |-> x[idx[k]].w, f |-> "w"]]]
  IN IF here # {} \/ early = {} THEN inside
     ELSE <<[x[last].c EXCEPT !.m = mt.a]>> \o inside

Transitions(mt, P) ==
  IF mt.e.pol = "" THEN <<[m |-> mt.a, save |-> mt.e.save, let |-> "", e |-> mt.e]>>
  ELSE Active(mt, P[mt.e.pol])

(* What is held at once while the window is read: the candidates of an era  *)
(* together with the active transitions of those before.                    *)
BufferSize(eras, P, y) ==
  LET M == Matches(eras, Month1(y - 1, 12), Month1(y + 1, 2))
      run == FoldLeft(LAMBDA a, mt :
               [held |-> a.held + Len(Transitions(mt, P)),
                max |-> MaxOf(a.max, a.held + IF mt.e.pol = "" THEN 1
                                               ELSE Len(Candidates(mt, P[mt.e.pol])))],
               [held |-> 0, max |-> 0], M)
  IN run.max

(***************************************************************************)
(* The year, as instants.  Empty when some era has no transition to begin   *)
(* with: the processor has nothing to say then.                             *)
(***************************************************************************)
Year(eras, P, y) ==
  LET M == Matches(eras, Month1(y - 1, 12), Month1(y + 1, 2))
      parts == MapSeq(M, LAMBDA mt : Transitions(mt, P))
      T == FoldLeft(LAMBDA a, p : a \o p, <<>>, parts)
      before(i) == IF i = 1 THEN T[1] ELSE T[i - 1]
      segs == [i \in 1..Len(T) |->
                Seg(On(T[i].m, "u", before(i).e.off, before(i).save), T[i].e, T[i])]
  IN IF M = <<>> \/ \E i \in 1..Len(parts) : parts[i] = <<>> THEN <<>>
     ELSE Squeeze(Clip(Squeeze(segs), Jan1(y), Jan1(y + 1)))

YearOfZone(zones, pol, n, y) ==
  LET eras == MapSeq(zones[n].eras, OutEra)
      used == {eras[i].pol : i \in 1..Len(eras)} \ {""}
  IN Year(eras, [p \in used |-> MapSeq(pol[p].rules, OutRule)], y)
=============================================================================
