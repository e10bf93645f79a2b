------------------------------ MODULE Extract ------------------------------
(* Reading the TZDB source files, one line at a time.                       *)
(*                                                                          *)
(* The reader's state is a record:                                          *)
(*   mode   name of the open Zone record of this file, "" if none           *)
(*   pol    policy name -> sequence of rule records                         *)
(*   zone   zone name   -> sequence of era records                          *)
(*   link   link name   -> sequence of the targets given for it             *)
(*   bad    <<malformed Rule lines, malformed era lines>>                   *)
(*   seen   <<Rule lines, era lines, Link lines, other lines>>              *)
(*   fatal  a line too short even to name its record                        *)
EXTENDS Cal

MaxYear == 32766          \* TO "max"
Infinity == 32767         \* UNTIL missing
Empty == [x \in {} |-> x]

Start == [mode |-> "", pol |-> Empty, zone |-> Empty, link |-> Empty,
          bad |-> <<0, 0>>, seen |-> <<0, 0, 0, 0>>, fatal |-> FALSE]

Append1(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = Append(@, v)]
                    ELSE (k :> <<v>>) @@ f

SuffixSet == {"w", "s", "u", "g", "z"}
(* "2:00s" -> time "2:00", suffix "s".                                      *)
AtOf(s) == LET c == Ch(s, Len(s)) IN
           IF IsDigit(c) THEN [ok |-> TRUE, t |-> s, f |-> ""]
           ELSE [ok |-> c \in SuffixSet, t |-> Take(s, Len(s) - 1), f |-> c]

MonthNum(s) == LET p == Lower(Take(s, MinOf(3, Len(s)))) IN
               IF p \in DOMAIN MonthOf THEN MonthOf[p] ELSE 0

(* Rule NAME FROM TO TYPE IN ON AT SAVE LETTER                              *)
RuleOf(w) ==
  LET fine == /\ Len(w) >= 10
              /\ IsInt(w[3])
              /\ w[4] \in {"only", "max"} \/ IsInt(w[4])
              /\ MonthNum(w[6]) # 0
              /\ AtOf(w[8]).ok
  IN IF ~fine THEN [ok |-> FALSE] ELSE
     [ok |-> TRUE,
      r |-> [from_year |-> IntOf(w[3]),
             to_year |-> IF w[4] = "only" THEN IntOf(w[3])
                         ELSE IF w[4] = "max" THEN MaxYear ELSE IntOf(w[4]),
             in_month |-> MonthNum(w[6]),
             on_day |-> w[7],
             at_time |-> AtOf(w[8]).t,
             at_time_suffix |-> AtOf(w[8]).f,
             delta_offset |-> w[9],
             letter |-> w[10], raw |-> w]]

(* STDOFF RULES FORMAT [YEAR [MONTH [DAY [TIME]]]]                          *)
EraOf(w) ==
  LET n == Len(w)
      fine == /\ n >= 3
              /\ n >= 4 => IsInt(w[4])
              /\ n >= 5 => MonthNum(w[5]) # 0
              /\ n >= 7 => AtOf(w[7]).ok
  IN IF ~fine THEN [ok |-> FALSE] ELSE
     [ok |-> TRUE,
      e |-> [offset_string |-> w[1], rules |-> w[2], format |-> w[3],
             until_year |-> IF n >= 4 THEN IntOf(w[4]) ELSE Infinity,
             until_year_only |-> n < 5,
             until_month |-> IF n >= 5 THEN MonthNum(w[5]) ELSE 1,
             until_day_string |-> IF n >= 6 THEN w[6] ELSE "1",
             until_time |-> IF n >= 7 THEN AtOf(w[7]).t ELSE "00:00",
             until_time_suffix |-> IF n >= 7 THEN AtOf(w[7]).f ELSE "w", raw |-> w]]

AddEra(st, name, w) ==
  LET e == EraOf(w)
      s1 == [st EXCEPT !.seen[2] = @ + 1, !.mode = name]
  IN IF e.ok THEN [s1 EXCEPT !.zone = Append1(@, name, e.e)]
     ELSE [s1 EXCEPT !.bad[2] = @ + 1]

(* One physical line.                                                       *)
ReadLine(st, line) ==
  LET s == StripLine(line)
      w == Words(s)
      tag == Take(s, MinOf(4, Len(s)))
  IN IF s = "" \/ st.fatal THEN st
     ELSE IF tag = "Rule" THEN
       IF Len(w) < 2 THEN [st EXCEPT !.fatal = TRUE] ELSE
       LET r == RuleOf(w)
           s1 == [st EXCEPT !.seen[1] = @ + 1, !.mode = ""]
       IN IF r.ok THEN [s1 EXCEPT !.pol = Append1(@, w[2], r.r)]
          ELSE [s1 EXCEPT !.bad[1] = @ + 1]
     ELSE IF tag = "Link" THEN
       IF Len(w) < 3 THEN [st EXCEPT !.fatal = TRUE] ELSE
       [st EXCEPT !.seen[3] = @ + 1, !.mode = "", !.link = Append1(@, w[3], w[2])]
     ELSE IF tag = "Zone" THEN
       IF Len(w) < 2 THEN [st EXCEPT !.fatal = TRUE] ELSE
       AddEra(st, w[2], SubSeq(w, 3, Len(w)))
     ELSE IF Ch(s, 1) = "\t" /\ st.mode # "" THEN AddEra(st, st.mode, w)
     ELSE [st EXCEPT !.seen[4] = @ + 1]

NextFile(st) == [st EXCEPT !.mode = ""]

ReadFile(st, lines) == FoldLeft(ReadLine, NextFile(st), lines)

FileNames == <<"africa", "antarctica", "asia", "australasia", "backward",
               "etcetera", "europe", "northamerica", "southamerica">>

ReadAll(files) ==
  FoldLeft(LAMBDA st, f : IF f \in DOMAIN files THEN ReadFile(st, files[f])
                          ELSE NextFile(st), Start, FileNames)

(* A link named once is kept; a link given several targets is dropped and   *)
(* every one of its lines is counted as invalid.                            *)
LinksOf(st) == [n \in {k \in DOMAIN st.link : Len(st.link[k]) = 1} |-> st.link[n][1]]
BadLinks(st) == FoldLeft(LAMBDA a, k : a + (IF Len(st.link[k]) > 1 THEN Len(st.link[k]) ELSE 0),
                         0, SetToSeq(DOMAIN st.link))
=============================================================================
