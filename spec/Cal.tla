-------------------------------- MODULE Cal --------------------------------
(* The proleptic Gregorian calendar, time-of-day text, and the TZDB         *)
(* day-of-month expressions.                                                *)
EXTENDS Str

MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
SeqMax(s) == FoldLeft(MaxOf, s[1], s)

IsLeap(y) == (y % 4 = 0) /\ ((y % 100 # 0) \/ (y % 400 = 0))
DaysInMonth(y, m) ==
  CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
    [] m \in {4, 6, 9, 11} -> 30
    [] OTHER -> IF IsLeap(y) THEN 29 ELSE 28

(* Days since 0000-03-01, era arithmetic with floored division.             *)
DayNum(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      mm == IF m <= 2 THEN m + 9 ELSE m - 3
  IN 365 * yy + (yy \div 4) - (yy \div 100) + (yy \div 400)
     + ((153 * mm + 2) \div 5) + (d - 1)

(* ISO weekday, Monday = 1 .. Sunday = 7.  0000-03-01 was a Wednesday.      *)
Weekday(dn) == ((dn + 2) % 7) + 1

(***************************************************************************)
(* [-]h[:m[:s]] as signed seconds.                                         *)
(***************************************************************************)
Bad == [ok |-> FALSE, v |-> 0]
Good(v) == [ok |-> TRUE, v |-> v]
TimeSecs(s) ==
  IF s = "" THEN Bad ELSE
  LET neg == Ch(s, 1) = "-"
      p == Split(IF neg THEN Drop(s, 1) ELSE s, ":")
  IN IF Len(p) > 3 \/ \E i \in 1..Len(p) : ~IsNat(p[i]) THEN Bad
     ELSE LET h == NatOf(p[1])
              m == IF Len(p) > 1 THEN NatOf(p[2]) ELSE 0
              x == IF Len(p) > 2 THEN NatOf(p[3]) ELSE 0
              t == (h * 60 + m) * 60 + x
          IN IF h > 25 \/ m > 59 \/ x > 59 THEN Bad
             ELSE Good(IF neg THEN -t ELSE t)

(* The multiple of g that a truncates to, moving towards zero.              *)
TruncTo(a, g) == IF a >= 0 THEN g * (a \div g) ELSE -(g * ((-a) \div g))

(***************************************************************************)
(* ON / UNTIL-day expressions.  kind "eq": day d;  "ge": first weekday w   *)
(* on or after d;  "le": last weekday w on or before d;  "last".           *)
(***************************************************************************)
WeekdayOf == [n \in {"Mon","Tue","Wed","Thu","Fri","Sat","Sun"} |->
  CASE n = "Mon" -> 1 [] n = "Tue" -> 2 [] n = "Wed" -> 3 [] n = "Thu" -> 4
    [] n = "Fri" -> 5 [] n = "Sat" -> 6 [] n = "Sun" -> 7]

(* (dow, dom) as the tool encodes it: (0,d), (w,d), (w,-d), (w,0).          *)
OnDay(s) ==
  LET g == IndexOf2(s, ">=")  l == IndexOf2(s, "<=") IN
  IF IsNat(s) THEN [ok |-> NatOf(s) # 0, w |-> 0, d |-> NatOf(s)]
  ELSE IF HasPrefix(s, "last") THEN
    IF Drop(s, 4) \in DOMAIN WeekdayOf
    THEN [ok |-> TRUE, w |-> WeekdayOf[Drop(s, 4)], d |-> 0]
    ELSE [ok |-> FALSE, w |-> 0, d |-> 0]
  ELSE IF g > 0 /\ Take(s, g - 1) \in DOMAIN WeekdayOf /\ IsNat(Drop(s, g + 1))
    THEN [ok |-> TRUE, w |-> WeekdayOf[Take(s, g - 1)], d |-> NatOf(Drop(s, g + 1))]
  ELSE IF l > 0 /\ Take(s, l - 1) \in DOMAIN WeekdayOf /\ IsNat(Drop(s, l + 1))
    THEN [ok |-> TRUE, w |-> WeekdayOf[Take(s, l - 1)], d |-> -NatOf(Drop(s, l + 1))]
  ELSE [ok |-> FALSE, w |-> 0, d |-> 0]

(* The day number selected by (w, d) in month m of year y.                  *)
OnDayNum(y, m, w, d) ==
  IF w = 0 THEN DayNum(y, m, d)
  ELSE IF d >= 0 THEN
    LET dd == IF d = 0 THEN DaysInMonth(y, m) - 6 ELSE d
        base == DayNum(y, m, dd)
    IN base + ((w - Weekday(base) + 7) % 7)
  ELSE LET base == DayNum(y, m, -d)
       IN base - ((Weekday(base) - w + 7) % 7)

(* The same, as (month, day); month 0 / 13 when it leaves the year.         *)
OnMonthDay(y, m, w, d) ==
  IF w = 0 THEN <<m, d>>
  ELSE LET dn == OnDayNum(y, m, w, d)
           first == DayNum(y, m, 1)
           len == DaysInMonth(y, m)
       IN IF dn < first
          THEN <<m - 1, (dn - first) + (IF m = 1 THEN 31 ELSE DaysInMonth(y, m - 1)) + 1>>
          ELSE IF dn >= first + len THEN <<m + 1, dn - first - len + 1>>
          ELSE <<m, dn - first + 1>>

(* (w, d) names a day that exists in month m of year y.  Weekdays are known  *)
(* for the years 1 to 9999.                                                 *)
OnDayExists(y, m, w, d) ==
  w = 0 \/ (y \in 1..9999 /\ LET a == IF d < 0 THEN -d ELSE d IN a <= DaysInMonth(y, m))

MonthOf == [n \in {"jan","feb","mar","apr","may","jun","jul","aug","sep","oct","nov","dec"} |->
  CASE n = "jan" -> 1 [] n = "feb" -> 2 [] n = "mar" -> 3 [] n = "apr" -> 4
    [] n = "may" -> 5 [] n = "jun" -> 6 [] n = "jul" -> 7 [] n = "aug" -> 8
    [] n = "sep" -> 9 [] n = "oct" -> 10 [] n = "nov" -> 11 [] n = "dec" -> 12]
=============================================================================
