------------------------------ MODULE Timeline ------------------------------
(* What a zone's records mean: which UTC offset, saving and abbreviation    *)
(* is in force at which instant.  The reading is zic's: eras follow each    *)
(* other, an era's UNTIL and a rule's AT are read with the offsets in force *)
(* just before, and before the first applicable rule standard time holds,   *)
(* with the letter of the earliest standard-time rule.                      *)
(*                                                                          *)
(* Plain records (Source and Built below make them):                        *)
(*   era  [off, pol, save, fmt, uy, um, ud, us, uf]                         *)
(*   rule [fy, ty, m, w, d, at, suf, save, let]                             *)
(* An instant is <<day, second of the day>>, in UTC.                        *)
EXTENDS Pipeline

Floor(a, b) == a \div b            \* TLC's \div rounds down for b > 0
Instant(day, secs) == <<day + Floor(secs, 86400), secs % 86400>>
Shift(t, secs) == Instant(t[1], t[2] + secs)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
NotAfter(a, b) == ~Before(b, a)
Jan1(y) == <<DayNum(y, 1, 1), 0>>
Never == Jan1(32766)
Always == <<-1000000, 0>>
(* A year no later than the one the instant lies in, a few less at most.    *)
YearFloor(t) == ((t[1] * 10) \div 3653) - 1

(***************************************************************************)
(* Plain records from source records and from database records.            *)
(***************************************************************************)
SrcRule(r, c) ==
  LET o == OnDay(r.on_day) IN
  [fy |-> r.from_year, ty |-> r.to_year, m |-> r.in_month, w |-> o.w, d |-> o.d,
   at |-> TruncTo(TimeSecs(r.at_time).v, c.ug),
   suf |-> IF r.at_time_suffix = "" THEN "w" ELSE r.at_time_suffix,
   save |-> TruncTo(TimeSecs(r.delta_offset).v, c.dg),
   std |-> TimeSecs(r.delta_offset).v = 0,
   let |-> IF r.letter = "-" THEN "" ELSE r.letter]
SrcEra(e, c) ==
  LET fixed == HasCh(e.rules, ":")
      o == OnDay(e.until_day_string)
      inf == e.until_year = Infinity
      md == IF inf THEN <<1, 1>> ELSE OnMonthDay(e.until_year, e.until_month, o.w, o.d)
  IN [off |-> TruncTo(TimeSecs(e.offset_string).v, c.og),
      pol |-> IF fixed \/ e.rules = "-" THEN "" ELSE e.rules,
      save |-> IF fixed THEN TruncTo(TimeSecs(e.rules).v, c.dg) ELSE 0,
      fmt |-> e.format, uy |-> e.until_year, um |-> md[1], ud |-> md[2],
      us |-> IF inf THEN 0 ELSE TruncTo(TimeSecs(e.until_time).v, c.ug),
      uf |-> IF e.until_time_suffix = "" THEN "w" ELSE e.until_time_suffix]
OutRule(r) ==
  [fy |-> r.from_year, ty |-> r.to_year, m |-> r.in_month, w |-> r.on_day_of_week,
   d |-> r.on_day_of_month, at |-> r.at_seconds_truncated, suf |-> r.at_time_suffix,
   save |-> r.delta_seconds_truncated, std |-> r.delta_seconds = 0, let |-> r.letter]
OutEra(e) ==
  [off |-> e.offset_seconds_truncated, pol |-> e.policy_name,
   save |-> e.era_delta_seconds_truncated, fmt |-> e.format,
   uy |-> e.until_year, um |-> e.until_month, ud |-> e.until_day,
   us |-> e.until_seconds_truncated, uf |-> e.until_time_suffix]

(***************************************************************************)
(* Abbreviations.                                                          *)
(***************************************************************************)
D2(n) == SubSeq("00010203040506070809101112131415161718192021222324252627282930"
                \o "3132333435363738394041424344454647484950515253545556575859",
                2 * n + 1, 2 * n + 2)
Numeric(t) ==
  LET a == IF t < 0 THEN -t ELSE t
      h == a \div 3600  m == (a \div 60) % 60  x == a % 60
  IN (IF t < 0 THEN "-" ELSE "+") \o D2(h)
     \o (IF m = 0 /\ x = 0 THEN "" ELSE D2(m)) \o (IF x = 0 THEN "" ELSE D2(x))
Abbr(fmt, let, off, save) ==
  LET z == IndexOf2(fmt, "%z")  s == IndexOf2(fmt, "%s")  b == IndexOf(fmt, "/") IN
  IF z > 0 THEN Take(fmt, z - 1) \o Numeric(off + save) \o Drop(fmt, z + 1)
  ELSE IF s > 0 THEN Take(fmt, s - 1) \o let \o Drop(fmt, s + 1)
  ELSE IF b > 0 THEN IF save = 0 THEN Take(fmt, b - 1) ELSE Drop(fmt, b)
  ELSE fmt

(***************************************************************************)
(* One era.                                                                *)
(***************************************************************************)
Utc(day, secs, suf, off, save) ==
  Instant(day, secs - (IF suf = "u" THEN 0 ELSE off) - (IF suf = "w" THEN save ELSE 0))
UntilOf(e, save) ==
  IF e.uy = Infinity THEN Never
  ELSE Utc(DayNum(e.uy, e.um, e.ud), e.us, e.uf, e.off, save)
RuleAt(r, y, off, save) == Utc(OnDayNum(y, r.m, r.w, r.d), r.at, r.suf, off, save)

Least(S, Lt(_, _)) == CHOOSE x \in S : \A y \in S : ~Lt(y, x)

(* Saving and letter in force at the start of year y: those of the rule     *)
(* that occurred last before it.                                            *)
StartOf(rules, y) ==
  LET I == {i \in 1..Len(rules) : rules[i].fy < y}
      last(i) == MinOf(rules[i].ty, y - 1)
      key(i) == <<last(i), IF last(i) <= MinYear THEN 0
                           ELSE OnDayNum(last(i), rules[i].m, rules[i].w, rules[i].d),
                  rules[i].at, i>>
      S == {i \in 1..Len(rules) : rules[i].std}
      first(i) == <<rules[i].fy, IF rules[i].fy <= MinYear THEN 0
                      ELSE OnDayNum(rules[i].fy, rules[i].m, rules[i].w, rules[i].d), i>>
  IN IF I # {}
     THEN LET i == CHOOSE i \in I : \A j \in I : ~TupleLt(key(i), key(j))
          IN [save |-> rules[i].save, let |-> rules[i].let]
     ELSE IF S # {}
     THEN LET i == CHOOSE i \in S : \A j \in S : ~TupleLt(first(j), first(i))
          IN [save |-> 0, let |-> rules[i].let]
     ELSE [save |-> 0, let |-> ""]

(* x is [cur, segs, open, end]: the run of the era so far.                   *)
Seg(t, e, c) == [at |-> t, off |-> e.off, save |-> c.save,
                 abbr |-> Abbr(e.fmt, c.let, e.off, c.save)]
Occur(x, e, r, t, S) ==
  LET c == [save |-> r.save, let |-> r.let] IN
  IF NotAfter(t, S) THEN [x EXCEPT !.cur = c, !.segs = <<Seg(S, e, c)>>]
  ELSE [x EXCEPT !.cur = c, !.segs = Append(@, Seg(t, e, c))]
RECURSIVE InYear(_, _, _, _, _, _)
InYear(x, e, rules, y, todo, S) ==
  IF todo = {} \/ ~x.open THEN x ELSE
  LET at(i) == RuleAt(rules[i], y, e.off, x.cur.save)
      i == CHOOSE i \in todo : \A j \in todo :
             Before(at(i), at(j)) \/ (at(i) = at(j) /\ i <= j)
      u == UntilOf(e, x.cur.save)
  IN IF NotAfter(u, at(i)) THEN [x EXCEPT !.open = FALSE, !.end = u]
     ELSE InYear(Occur(x, e, rules[i], at(i), S), e, rules, y, todo \ {i}, S)

(* The era from instant S; only what matters from year lo to year hi.       *)
RunEra(e, P, S, lo, hi) ==
  IF e.pol = "" THEN
    [segs |-> <<Seg(S, e, [save |-> e.save, let |-> ""])>>, end |-> UntilOf(e, e.save)]
  ELSE
    LET rules == P[e.pol]
        y0 == MaxOf(IF S = Always THEN MinYear + 1 ELSE YearFloor(S) - 1,
                    MinOf(lo - 2, e.uy - 2))
        y1 == MinOf(hi + 1, IF e.uy = Infinity THEN hi + 1 ELSE e.uy + 1)
        c0 == StartOf(rules, y0)
        x0 == [cur |-> c0, segs |-> <<Seg(S, e, c0)>>, open |-> TRUE, end |-> Never]
        run == FoldLeft(LAMBDA x, y :
                 IF ~x.open THEN x ELSE
                 InYear(x, e, rules, y,
                        {i \in 1..Len(rules) : rules[i].fy <= y /\ y <= rules[i].ty}, S),
                 x0, [k \in 1..MaxOf(0, y1 - y0 + 1) |-> y0 + k - 1])
    IN [segs |-> run.segs,
        end |-> IF run.open THEN UntilOf(e, run.cur.save) ELSE run.end]

(***************************************************************************)
(* The zone from the start of year lo to the start of year hi.             *)
(***************************************************************************)
Squeeze(segs) ==     \* drop segments overtaken at once, or that change nothing
  FoldLeft(LAMBDA a, s :
      IF a = <<>> THEN <<s>>
      ELSE LET p == a[Len(a)]
               b == IF p.at = s.at THEN SubSeq(a, 1, Len(a) - 1) ELSE a
           IN IF b # <<>> /\ [b[Len(b)] EXCEPT !.at = s.at] = s THEN b ELSE Append(b, s),
      <<>>, segs)
Clip(segs, a, b) ==
  LET started == {i \in 1..Len(segs) : NotAfter(segs[i].at, a)}
      inside == {i \in 1..Len(segs) : Before(a, segs[i].at) /\ Before(segs[i].at, b)}
      k == IF started = {} THEN 0 ELSE CHOOSE i \in started : \A j \in started : j <= i
      idx == Sorted(inside)
  IN (IF k = 0 THEN <<>> ELSE <<[segs[k] EXCEPT !.at = a]>>)
     \o [i \in 1..Len(idx) |-> segs[idx[i]]]

Zone(eras, P, lo, hi) ==
  LET run == FoldLeft(LAMBDA x, e :
               IF Before(Jan1(hi + 1), x.start) THEN x ELSE
               LET r == RunEra(e, P, x.start, lo, hi)
               IN [start |-> r.end, segs |-> x.segs \o r.segs],
               [start |-> Always, segs |-> <<>>], eras)
  IN Squeeze(Clip(Squeeze(run.segs), Jan1(lo), Jan1(hi)))

SrcZone(zones, pol, n, c, lo, hi) ==
  LET eras == MapSeq(zones[n], LAMBDA e : SrcEra(e, c))
      used == {eras[i].pol : i \in 1..Len(eras)} \ {""}
  IN Zone(eras, [p \in used |-> MapSeq(pol[p], LAMBDA r : SrcRule(r, c))], lo, hi)
OutZone(zones, pol, n, lo, hi) ==
  LET eras == MapSeq(zones[n].eras, OutEra)
      used == {eras[i].pol : i \in 1..Len(eras)} \ {""}
  IN Zone(eras, [p \in used |-> MapSeq(pol[p].rules, OutRule)], lo, hi)

(* zic's last step: a transition that the next one overtakes on the local   *)
(* clock is dropped.                                                        *)
Total(s) == s.off + s.save
LateMerge(segs) ==
  FoldLeft(LAMBDA a, s :
     LET n == Len(a) IN
     IF n > 1 /\ NotAfter(Shift(s.at, Total(a[n])), Shift(a[n].at, Total(a[n - 1])))
     THEN [a EXCEPT ![n] = [s EXCEPT !.at = a[n].at]] ELSE Append(a, s), <<>>, segs)
=============================================================================
