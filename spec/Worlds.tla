------------------------------- MODULE Worlds -------------------------------
(* Families of small sources and configurations, numbered, so that a run    *)
(* can take all of a family or an even sample of it.                        *)
EXTENDS System
CONSTANTS Family, Count, Walk, Seed

Tab(seq) == FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE IF x = "" THEN a ELSE a \o "\t" \o x, "", seq)
Rule(n, fr, to, in, on, at, sv, lt) == Tab(<<"Rule", n, fr, to, "-", in, on, at, sv, lt>>)
LinkLine(t, n) == Tab(<<"Link", t, n>>)
ZoneLine(n, e) == Tab(<<"Zone", n, e>>)
More(e) == "\t\t\t" \o e
ZoneLines(n, eras) == <<ZoneLine(n, eras[1])>> \o [i \in 1..Len(eras) - 1 |-> More(eras[i + 1])]
Files(rest, links) == [northamerica |-> rest, backward |-> links]

Conf(scope, s, u, strict, base, include) ==
  [scope |-> scope, start |-> s, until |-> u, strict |-> strict, base |-> base,
   include |-> include, tiny |-> scope # "complete",
   ug |-> IF scope = "complete" THEN 1 ELSE 60, og |-> IF scope = "complete" THEN 1 ELSE 60,
   dg |-> IF scope = "complete" THEN 60 ELSE 900]

(* Mixed-radix digits of i: dims is the sequence of sequences to pick from. *)
RECURSIVE PickFrom(_, _)
PickFrom(i, dims) == IF dims = <<>> THEN <<>>
  ELSE <<dims[1][(i % Len(dims[1])) + 1]>> \o PickFrom(i \div Len(dims[1]), Tail(dims))
Size(dims) == FoldLeft(LAMBDA a, d : a * Len(d), 1, dims)
(* At most k numbers, spread over 0..n-1.                                   *)
Chosen(n, k) == IF k >= n THEN 0..n - 1
                ELSE LET step == n \div k
                         off == (Seed * 97) % step
                     IN {step * j + ((off + 31 * j + 7 * j * (j % 13)) % step) : j \in 0..k - 1}

Scopes == <<"complete", "extended", "basic">>
Windows == << <<2000, 2003>>, <<1998, 2001>>, <<2002, 2010>> >>

(***************************************************************************)
(* rules: a policy of up to four rules around a window.                    *)
(***************************************************************************)
Spans == << <<"1996", "only">>, <<"1990", "1997">>, <<"1998", "only">>, <<"1999", "2000">>,
            <<"2001", "max">>, <<"2003", "2005">>, <<"1990", "max">>, <<"2004", "max">>, <<"", "">> >>
Kinds == << <<"Mar", "lastSun", "2:00", "1:00", "D">>, <<"Oct", "Sun>=1", "2:00s", "0", "S">>,
            <<"Jun", "15", "1:00u", "0", "M">>, <<"Jan", "1", "0:00", "0", "-">>,
            <<"Sep", "Fri<=7", "24:00", "0:30", "HH">> >>
Bases == << ZoneLines("T/Z", <<Tab(<<"-5:00", "P", "E%sT">>)>>),
            ZoneLines("T/Z", <<Tab(<<"1:00", "-", "LMT", "2000", "Mar", "26", "2:00s">>),
                               Tab(<<"2:00", "P", "AA/BB">>)>>),
            ZoneLines("T/Z", <<Tab(<<"-1:00", "P", "%z", "2001">>), Tab(<<"2:00", "P", "X%s">>)>>) >>
RuleDims == <<Spans, Kinds, Spans, Kinds, Spans, Kinds, Windows, Scopes, Bases, <<TRUE, FALSE>> >>
PRule(span, kind) == IF span[1] = "" THEN <<>>
  ELSE <<Rule("P", span[1], span[2], kind[1], kind[2], kind[3], kind[4], kind[5])>>
RuleWorld(i) ==
  LET d == PickFrom(i, RuleDims) IN
  [id |-> "rules" \o ToString(i), cfg |-> Conf(d[8], d[7][1], d[7][2], TRUE, 2100, <<>>),
   files |-> Files((IF d[10] THEN PRule(<<"1967", "1980">>, Kinds[2]) ELSE <<>>)
                   \o PRule(d[1], d[2]) \o PRule(d[3], d[4]) \o PRule(d[5], d[6])
                   \o d[9] \o ZoneLines("Etc/UTC", <<Tab(<<"0", "-", "UTC">>)>>),
                   <<LinkLine("T/Z", "L/Z")>>)]

(***************************************************************************)
(* eras: a zone of up to four eras across a window.                        *)
(***************************************************************************)
Untils == << <<"1997">>, <<"1998", "Dec", "31">>, <<"1999">>, <<"1999", "Jul", "1", "0:00">>,
             <<"2000", "Mar", "lastSun", "2:00">>, <<"2000", "Oct", "Sun>=1", "1:00u">>,
             <<"2001">>, <<"2003", "Jan", "Sun<=3">>, <<"2003", "Mar", "Sun>=8", "24:00">>,
             <<"2004">>, <<"2004", "Nov", "30", "12:00:30">>, <<"2006">> >>
EraKinds == << <<"1:00", "P", "C%sT">>, <<"-5:00", "-", "XST">>, <<"0:30", "1:00", "A/B">>,
               <<"2:00", "P", "%z">>, <<"-3:30:52", "-", "LMT">> >>
EraPolicy == <<Rule("P", "1995", "max", "Mar", "lastSun", "2:00", "1:00", "S"),
               Rule("P", "1995", "2001", "Oct", "Sun>=1", "2:00s", "0", "-"),
               Rule("P", "2002", "max", "Nov", "1", "1:00u", "0", "W")>>
Lasts == <<TRUE, TRUE, TRUE, FALSE>>
EraDims == <<Untils, EraKinds, Untils, EraKinds, Untils, EraKinds, <<1, 2, 3>>, EraKinds, Windows, Scopes, Lasts, <<TRUE, FALSE>> >>
EraWorld(i) ==
  LET d == PickFrom(i, EraDims)
      n == d[7]
      all == << Tab(d[2] \o d[1]), Tab(d[4] \o d[3]), Tab(d[6] \o d[5]) >>
      eras == SubSeq(all, 1, n) \o (IF d[11] THEN <<Tab(d[8])>> ELSE <<Tab(d[8] \o <<"2004">>)>>)
  IN [id |-> "eras" \o ToString(i), cfg |-> Conf(d[10], d[9][1], d[9][2], d[12], 2100, <<>>),
      files |-> Files(ZoneLines("T/Z", eras) \o EraPolicy, <<>>)]
(* The same with UNTILs already in order: most random ones are not.         *)
OrderedWorld(i) ==
  LET m == Len(Untils)
      a == i % m  r == i \div m
      b == a + 1 + (r % 4)  r2 == r \div 4
      c == b + 1 + (r2 % 4)  r3 == r2 \div 4
      d == PickFrom(r3, <<EraKinds, EraKinds, EraKinds, EraKinds, Windows, Scopes, <<TRUE, FALSE>> >>)
      u(k) == IF k < m THEN Untils[k + 1] ELSE <<ToString(2007 + k)>>
  IN [id |-> "ordered" \o ToString(i), cfg |-> Conf(d[6], d[5][1], d[5][2], d[7], 2100, <<>>),
      files |-> Files(ZoneLines("T/Z", <<Tab(d[1] \o u(a)), Tab(d[2] \o u(b)), Tab(d[3] \o u(c)), Tab(d[4])>>)
                      \o EraPolicy, <<LinkLine("T/Z", "L")>>)]
OrderedSize == 12 * 4 * 4 * 625 * 3 * 3 * 2

(***************************************************************************)
(* priors: rules crowded in the months before a window, in any order, so    *)
(* that the one in force when it begins has rivals of its year and month.   *)
(***************************************************************************)
Near == << <<"1998", "only">>, <<"1999", "only">>, <<"1997", "1999">>, <<"1999", "only">>, <<"1999", "2000">>, <<"", "">> >>
NearMonths == <<"Sep", "Sep", "Dec", "Jan">>
NearDays == <<"1", "20", "lastSun", "31", "Sun>=15">>
NearKinds == << <<"2:00", "0", "S">>, <<"0:00s", "1:00", "D">>, <<"1:00u", "0:30", "H">>, <<"2:00", "0", "T">> >>
NearBases == << ZoneLines("T/Z", <<Tab(<<"-5:00", "P", "E%sT">>)>>),
                ZoneLines("T/Z", <<Tab(<<"-5:00", "-", "LMT", "1999", "Sep", "10">>), Tab(<<"-5:00", "P", "E%sT">>)>>),
                ZoneLines("T/Z", <<Tab(<<"-5:00", "P", "E%sT", "1999", "Sep", "10">>), Tab(<<"-5:00", "-", "LMT", "2001">>),
                                   Tab(<<"-5:00", "P", "E%sT">>)>>) >>
PriorDims == <<Near, NearMonths, NearDays, NearKinds, Near, NearMonths, NearDays, NearKinds, Near, NearMonths, NearDays, NearKinds>>
PriorMore == <<NearBases, << <<2000, 2003>>, <<2001, 2002>>, <<1999, 2000>>, <<1980, 2005>> >>,
              <<"complete", "extended">>, <<TRUE, FALSE>>, << <<"2001", "max">>, <<"2020", "only">>, <<"", "">> >> >>
NearRule(span, m, d, k) == IF span[1] = "" THEN <<>>
  ELSE <<Rule("P", span[1], span[2], m, IF m = "Sep" /\ d = "31" THEN "30" ELSE d, k[1], k[2], k[3])>>
PriorWorld(i) ==
  LET d == PickFrom(i, PriorDims) \o PickFrom(((i * 7) \div 11) % 144, PriorMore) IN
  [id |-> "priors" \o ToString(i), cfg |-> Conf(d[15], d[14][1], d[14][2], FALSE, 2100, <<>>),
   files |-> Files((IF d[16] THEN <<Rule("P", "1970", "only", "Jan", "1", "0:00", "0", "Z")>> ELSE <<>>)
                   \o NearRule(d[1], d[2], d[3], d[4]) \o NearRule(d[5], d[6], d[7], d[8])
                   \o NearRule(d[9], d[10], d[11], d[12])
                   \o (IF d[17][1] = "" THEN <<>> ELSE <<Rule("P", d[17][1], d[17][2], "Oct", "1", "2:00", "0", "V")>>)
                   \o d[13], <<>>)]

(***************************************************************************)
(* shared: two zones whose eras share two policies, so that what a policy   *)
(* keeps is what either of them needs.                                      *)
(***************************************************************************)
Cuts == <<"1970", "1996", "1999", "2000", "2001", "2001 Jul 1", "2003", "2006">>
PolSeqs == << <<"P", "Q">>, <<"P", "P">>, <<"Q", "P">>, <<"-", "P">>, <<"P", "-">>, <<"Q", "1:00">> >>
SharedRules == <<
  << Rule("P", "1960", "1995", "Mar", "Sun>=1", "2:00", "1:00", "D"), Rule("P", "1960", "1995", "Oct", "lastSun", "2:00", "0", "S"),
     Rule("P", "1998", "max", "Apr", "1", "2:00s", "1:00", "E"), Rule("P", "1998", "max", "Sep", "30", "2:00s", "0", "F") >>,
  << Rule("P", "1960", "max", "Mar", "Sun>=1", "2:00", "1:00", "D"), Rule("P", "1960", "2000", "Oct", "lastSun", "2:00", "0", "S"),
     Rule("P", "2001", "only", "Oct", "1", "2:00s", "0", "T"), Rule("P", "2002", "max", "Nov", "30", "2:00s", "0", "U") >> >>
SharedOther == <<
  << Rule("Q", "1950", "only", "Mar", "1", "0:00", "0", "-"), Rule("Q", "2000", "2004", "May", "lastSun", "1:00u", "0:30", "H"),
     Rule("Q", "2000", "2004", "Aug", "lastSun", "1:00u", "0", "I") >>,
  << Rule("Q", "1997", "1999", "May", "1", "0:00", "1:00", "J"), Rule("Q", "1997", "1999", "Jul", "1", "0:00", "0", "K"),
     Rule("Q", "2100", "max", "Jul", "1", "0:00", "0", "L") >> >>
SharedDims == <<PolSeqs, Cuts, PolSeqs, Cuts, SharedRules, SharedOther, Windows, Scopes, <<TRUE, FALSE>> >>
SharedWorld(i) ==
  LET d == PickFrom(i, SharedDims)
      fmt(p) == IF p = "-" THEN "LMT" ELSE IF p = "1:00" THEN "AA/BB" ELSE "X%sT"
      two(n, ps, cut) == ZoneLines(n, <<Tab(<<"1:00", ps[1], fmt(ps[1]), cut>>), Tab(<<"2:00", ps[2], fmt(ps[2])>>)>>)
  IN [id |-> "shared" \o ToString(i), cfg |-> Conf(d[8], d[7][1], d[7][2], d[9], 2100, <<>>),
      files |-> Files(two("T/Z", d[1], d[2]) \o d[5] \o two("T/Y", d[3], d[4]) \o d[6], <<LinkLine("T/Y", "L/Y")>>)]

(***************************************************************************)
(* names: zones, links and policies that clash, chain, or are left out.    *)
(***************************************************************************)
ZoneNames == <<"A/B", "A/bA", "C/D", "A-B", "E/F">>
LinkNames == <<"", "L/M", "A/ab", "A_B", "A+B", "A_PLUS_B", "A/B">>
Targets == <<"A/B", "C/D", "E/F", "A-B", "L/M", "Nope">>
PolPool == <<"P-1", "P_1", "Q", "-", "-", "R">>
Includes == << <<>>, <<>>, <<"A/B">>, <<"A/B", "A-B", "A/ab", "L/M">>, <<"Nope", "C/D", "L/M">> >>
NameDims == <<ZoneNames, ZoneNames, LinkNames, Targets, LinkNames, Targets, PolPool, PolPool, Includes, Scopes>>
NameWorld(i) ==
  LET d == PickFrom(i, NameDims)
      fmt(p) == IF p = "-" THEN "XX" ELSE "X%sT"
  IN [id |-> "names" \o ToString(i), cfg |-> Conf(d[10], 2000, 2003, TRUE, 2100, d[9]),
      files |-> Files(
        ZoneLines(d[1], <<Tab(<<"1:00", d[7], fmt(d[7])>>)>>)
        \o (IF d[2] = d[1] THEN <<>> ELSE ZoneLines(d[2], <<Tab(<<"2:00", d[8], fmt(d[8])>>)>>))
        \o (IF {d[7], d[8]} \cap {"P-1", "P_1"} = {} THEN <<>>
            ELSE <<Rule(IF d[7] = "P-1" THEN d[7] ELSE "P_1", "1990", "max", "Mar", "1", "2:00", "0", "S"),
                   Rule(IF d[8] = "P-1" THEN d[8] ELSE "P_1", "1990", "max", "Mar", "1", "2:00", "0", "T")>>)
        \o <<Rule("R", "1990", "max", "Mar", "1", "2:00", "0", "S"), Rule("R", "1999", "only", "Jul", "1", "2:00", "1:00", "S")>>,
        (IF d[3] = "" THEN <<>> ELSE <<LinkLine(d[4], d[3])>>)
        \o (IF d[5] = "" THEN <<>> ELSE <<LinkLine(d[6], d[5])>>))]

(***************************************************************************)
(* paths: names of several parts which share them, of zones and links.      *)
(***************************************************************************)
Heads_ == <<"", "Alpha/", "Ab/", "Alpha/Beta/", "Alphabet/", "Beta/Alpha/", "Alpha/Alpha/", "E_e-e/">>
PathDims == <<Heads_, Heads_, Heads_, Heads_, Heads_, Heads_, Heads_, <<1, 3, 6>>, Scopes,
              <<"Alpha", "Beta", "Z", "GMT+0", "GMT-0", "x_y", "0">> >>
PathWorld(i) ==
  LET d == PickFrom(i, PathDims)
      name(j) == d[j] \o d[10] \o (IF j = 1 THEN "" ELSE ToString(j))
      zone(j) == ZoneLines(name(j), <<Tab(<<ToString(j) \o ":00", IF j % 2 = 0 THEN "P" ELSE "-", IF j % 2 = 0 THEN "X%sT" ELSE "XX">>)>>)
      cut == d[8]
      zs == FoldLeft(LAMBDA a, j : a \o zone(j), <<>>, [j \in 1..cut |-> j])
  IN [id |-> "paths" \o ToString(i), cfg |-> Conf(d[9], 2000, 2003, TRUE, 2100, <<>>),
      files |-> Files(zs \o <<Rule("P", "1990", "max", "Mar", "1", "2:00", "0", "S")>>
                      \o ZoneLines("Alpha/Q", <<Tab(<<"2:00", "P", "Y%sT">>)>>),
                      [j \in 1..7 - cut |-> LinkLine(IF j % 2 = 0 THEN "Alpha/Q" ELSE name(1), name(cut + j))])]

(***************************************************************************)
(* fields: two fields at once leave the ordinary.                          *)
(***************************************************************************)
Times == <<"0:00", "2:00", "2:07", "2:00:30", "25:00", "26:00", "-1:00", "2:61", "x">>
Saves == <<"0", "1:00", "0:20", "2:45", "3:00", "-1:00", "-1:15", "1:00:30", "1:00d">>
Days == <<"1", "lastSun", "Sun>=1", "Sun<=1", "Sun<=7", "Sun>=26", "Sun>=31", "Foo>=1">>
Months == <<"Jan", "Feb", "Nov", "Dec">>
Offsets == <<"1:00", "-4:56:02", "0:07", "-0:14:59", "26:00", "1">>
Eras_ == <<"P", "-", "1:00", "0:00", "0:07", "2:59:30", "Nope">>
Formats == <<"X%sT", "%z", "A/B", "CST", "A%z">>
Grans == << <<1, 1, 60>>, <<60, 60, 900>>, <<900, 900, 900>>, <<3600, 60, 1800>> >>
FieldDims == <<Times, <<"", "s", "u", "g", "q">>, Saves, Days, Months, Offsets, Eras_, Formats,
               Times, Days, Grans, <<TRUE, FALSE>>, Scopes>>
(* Digits far from the ordinary are kept rare: most worlds vary two or three fields. *)
Tame(d, i) ==
  LET keep == {((i * 7) % 10) + 1, ((i * 3 + (i \div 10)) % 10) + 1, ((i \div 7) % 10) + 1}
      plain == <<"2:00", "", "1:00", "Sun>=1", "Nov", "1:00", "P", "X%sT", "0:00", "1">>
  IN [k \in 1..13 |-> IF k <= 10 /\ k \notin keep THEN plain[k] ELSE d[k]]
FieldWorld(i) ==
  LET d == Tame(PickFrom(i, FieldDims), i)
      c == Conf(d[13], 2000, 2003, d[12], 2100, <<>>)
  IN [id |-> "fields" \o ToString(i),
      cfg |-> [c EXCEPT !.ug = d[11][1], !.og = d[11][2], !.dg = d[11][3]],
      files |-> Files(
        ZoneLines("T/Z", <<Tab(<<d[6], d[7], d[8], "2001", "Mar", d[10], d[9]>>), Tab(<<"1:00", "P", "Y%sT">>)>>)
        \o ZoneLines("T/Y", <<Tab(<<"2:00", "-", "YY">>)>>)
        \o <<Rule("P", "1990", "max", "Mar", "1", "2:00", "0", "S"),
             Rule("P", "2000", "2002", d[5], d[4], d[1] \o d[2], d[3], "D")>>,
        <<LinkLine("T/Z", "L/Z"), LinkLine("T/Y", "L/Y")>>)]
FieldSize == 100000000

(***************************************************************************)
(* lines: any order of line shapes, over two files.                        *)
(***************************************************************************)
Shapes == << "", "# only a comment", " \t ", "Rule\tP\t1990\tmax\t-\tMar\t1\t2:00\t0\tS",
  "Rule\tP\t1995\t1999\t-\tapril\tSun>=1\t2:00s\t1:00\tD  # note", "Rule P 1990 max - Foo 1 2:00 0 S",
  "Rule P 1990", "Rule", "Zone\tA/B\t1:00\tP\tX%sT\t2001", "Zone\tA/B\t2:00\t-\tYY",
  "Zone A/C bad", "Zone", "\t\t\t3:00\t-\tZZ\t2003 Oct lastSun 1:00u", "\t\t\t4:00 P W%s", "\tx",
  "    5:00 - SP", "\t# comment", "Link\tA/B\tL", "Link A/B L", "Link A/B", "Rules\tQ\t1990\tonly\t-\tMar\t1\t0\t0\t-",
  "zone x y", "\t6:00\t-\tTT\t2005\tJun 3#x" >>
LineDims == <<Shapes, Shapes, Shapes, Shapes, <<1, 2, 3>> >>
LineWorld(i) ==
  LET d == PickFrom(i, LineDims)
      l == <<d[1], d[2], d[3], d[4]>>
      k == d[5]
  IN [id |-> "lines" \o ToString(i), cfg |-> Conf("complete", 2000, 2003, TRUE, 2100, <<>>),
      files |-> [africa |-> SubSeq(l, 1, k), asia |-> SubSeq(l, k + 1, 4)]]

(***************************************************************************)
FamilySize == CASE Family = "rules" -> Size(RuleDims) [] Family = "eras" -> Size(EraDims)
  [] Family = "ordered" -> OrderedSize [] Family = "names" -> Size(NameDims)
  [] Family = "paths" -> Size(PathDims)
  [] Family = "priors" -> Size(PriorDims) [] Family = "shared" -> Size(SharedDims)
  [] Family = "fields" -> FieldSize [] Family = "lines" -> Size(LineDims)
WorldOf(i) == CASE Family = "rules" -> RuleWorld(i) [] Family = "eras" -> EraWorld(i)
  [] Family = "ordered" -> OrderedWorld(i) [] Family = "names" -> NameWorld(i)
  [] Family = "paths" -> PathWorld(i)
  [] Family = "priors" -> PriorWorld(i) [] Family = "shared" -> SharedWorld(i)
  [] Family = "fields" -> FieldWorld(i) [] Family = "lines" -> LineWorld(i)
(* The worlds whose every step is explored here, and those (more of them)   *)
(* written out to be run through the real code.                             *)
Walked == {WorldOf(i) : i \in Chosen(FamilySize, Walk)}
Exported == {WorldOf(i) : i \in Chosen(FamilySize, Count)}
ASSUME ndJsonSerialize("worlds.ndjson", SetToSeq(Exported \cup Walked))
=============================================================================
