------------------------------ MODULE Commands ------------------------------
(* Command lines, numbered: most take a few options away from the plain.    *)
EXTENDS Cli, Json
CONSTANTS Count, Seed

Mix(i, j) == LET a == (i * 131 + j * 1543 + Seed * 977) % 32749 IN (((a * a) % 32749) + (a \div 7) + (i \div 5)) % 30011
Pick(seq, i, j) == seq[(Mix(i, j) % Len(seq)) + 1]
ActionsV == <<"zonedb", "zonedb", "json", "zonelist", "zonedb,json", "json,zonelist", "zonedb,json,zonelist", "zonelist,zonedb">>
LanguagesV == <<"arduino", "c", "python", "go", "arduino,python", "c,go", "python,go", "go,arduino", "c,python,go", "arduino,go,python">>
BadActions == <<"bogus", "zonedb,foo", "zonedb,", "", "Zonedb", "zonedb json", "list">>
BadLanguages == <<"java", "arduino,cpp", "", "go,", "Python", "arduino c", "all">>
Scopes == <<"basic", "extended", "complete", "complete">>
Dims == <<
  << <<"start_year", "1990">>, <<"until_year", "2037">>, <<"start_year", "1979">>, <<"start_year", "1980">>, <<"start_year", "1973">>,
     <<"start_year", "1974">>, <<"start_year", "2099">>, <<"start_year", "2100">>, <<"start_year", "2101">>, <<"until_year", "2000">>,
     <<"until_year", "2001">>, <<"until_year", "32767">>, <<"until_year", "32768">>, <<"start_year", "x">>, <<"until_year", "20.5">>,
     <<"start_year", "-32768">>, <<"start_year", "1">>, <<"until_year", "10000">>, <<"start_year", "2005">>, <<"until_year", "2006">> >>,
  << <<"granularity", "900">>, <<"until_at_granularity", "900">>, <<"offset_granularity", "900">>, <<"delta_granularity", "3600">>,
     <<"granularity", "0">>, <<"granularity", "60">>, <<"granularity", "one">>, <<"until_at_granularity", "1">>,
     <<"offset_granularity", "3600">>, <<"delta_granularity", "60">>, <<"granularity", "3600">>, <<"granularity", "1">> >>,
  << <<"until_at_granularity", "3600">>, <<"offset_granularity", "1">>, <<"delta_granularity", "1800">>, <<"granularity", "1800">> >>,
  << <<"nostrict">>, <<"strict">>, <<"nostrict">>, <<"nostrict">> >>,
  << <<"strict">>, <<"nostrict">> >>,
  << <<"nocompress">>, <<"compress">>, <<"nocompress">> >>,
  << <<"compress">>, <<"nocompress">> >>,
  << <<"json_file", "x.json">>, <<"json_file", "zonedbx.json">> >>,
  << <<"ignore_buf_size_too_large">> >>,
  << <<"include_list", "some.txt">>, <<"include_list", "gone.txt">>, <<"include_list", "none.txt">>, <<"include_list", "all.txt">>,
     <<"include_list", "some.txt">> >>,
  << <<"skip_bufestimator">> >>,
  << <<"tiny_base_year", "2050">>, <<"tiny_base_year", "2000">>, <<"tiny_base_year", "0">>, <<"tiny_base_year", "two">> >>,
  << <<"bogus", "1">>, <<"frobnicate">>, <<"s", "1990">>, <<"until", "2037">>, <<"start", "1991">>, <<"json", "y.json">>, <<"gran", "60">>,
     <<"tz_version", "2026a">>, <<"scope", "basic">>, <<"db_namespace", "other">> >>
>>
(* How often each of them is used: once in so many commands.                *)
Rate == <<2, 3, 8, 3, 8, 5, 9, 5, 5, 4, 9, 7, 12>>
Arg(a, i, j) == IF Len(a) = 1 THEN <<"--" \o a[1]>>
                ELSE IF Mix(i, j + 70) % 3 = 0 THEN <<"--" \o a[1] \o "=" \o a[2]>> ELSE <<"--" \o a[1], a[2]>>
Flat(seqs) == FoldLeft(LAMBDA x, y : x \o y, <<>>, seqs)
Argv(i) ==
  LET acts == IF i % 17 = 3 THEN Pick(BadActions, i, 1) ELSE Pick(ActionsV, i, 1)
      langs == IF i % 17 = 7 THEN Pick(BadLanguages, i, 2) ELSE Pick(LanguagesV, i, 2)
      scope == IF i % 41 = 5 THEN "full" ELSE Pick(Scopes, i, 3)
      must == << <<"actions", acts>>, <<"languages", langs>>, <<"scope", scope>>,
                 <<"input_dir", IF i % 29 = 4 THEN "nowhere" ELSE Pick(<<"in1", "in2", "in3">>, i, 4)>>, <<"tz_version", Pick(<<"2025b", "2024a">>, i, 5)>> >>
      keep == IF i % 19 = 11 THEN (Mix(i, 6) % 5) + 1 ELSE 0
      out == IF i % 23 = 9 THEN <<"output_dir", "missing">> ELSE IF i % 5 = 2 THEN <<>> ELSE <<"output_dir", Pick(<<"out", "out", "o/p">>, i, 7)>>
      ns == IF i % 13 = 6 THEN Pick(<< <<>>, <<"db_namespace", "">> >>, i, 8) ELSE <<"db_namespace", Pick(<<"zonedb", "zonedbx">>, i, 8)>>
      both == i % 9 = 4
      opts == [j \in 1..Len(Dims) |-> IF both /\ j = 2 THEN Pick(<< <<"granularity", "900">>, <<"granularity", "120">>, <<"granularity", "0">> >>, i, 42)
                                       ELSE IF both /\ j = 3 THEN Pick(<< <<"until_at_granularity", "3600">>, <<"offset_granularity", "1">>,
                                                                         <<"delta_granularity", "60">> >>, i, 43)
                                       ELSE IF Mix(i, 20 + j) % Rate[j] = 0 THEN Pick(Dims[j], i, 40 + j) ELSE <<>>]
      all == SelectSeq([j \in 1..5 |-> IF j = keep THEN <<>> ELSE must[j]] \o <<out, ns>> \o opts, LAMBDA a : a # <<>>)
      n == Len(all)
      turned == [j \in 1..n |-> all[((j + Mix(i, 9)) % n) + 1]]
  IN IF i % 61 = 60 THEN <<"--help">> ELSE Flat([j \in 1..n |-> Arg(turned[j], i, j)])
Dirs == <<"in1", "in2", "in3", "out", "o/p">>
Lists == ("some.txt" :> <<"# the zones wanted", "", "America/One", "  US/One  ", "Etc/UTC", "#UTC">>)
      @@ ("none.txt" :> <<"", "# nothing">>)
      @@ ("all.txt" :> <<"America/One", "US/One", "Etc/UTC", "UTC", "Europe/Two", "Asia/Three">>)
VARIABLES n, q
Init == n \in 0..Count - 1 /\ q = Asked(Argv(n), Range(Dirs), Lists)
Next == UNCHANGED <<n, q>>
(* The request is decided, whole, and within its types.                     *)
Decided == /\ q.what \in {"help", "refused", "compile"}
           /\ q.what = "compile" =>
               /\ q.cfg.start < q.cfg.until /\ q.cfg.ug > 0 /\ q.cfg.og > 0 /\ q.cfg.dg > 0
               /\ q.cfg.start >= MinStart[q.cfg.scope] /\ q.gens # <<>> /\ q.version # ""
               /\ (q.ns = "" => Range(q.gens) \cap {"arduino", "c", "go"} = {})
(* Turning the arguments round changes nothing, as no option is given twice *)
(* or cancels another.                                                      *)
ASSUME ndJsonSerialize("commands.ndjson", [i \in 1..Count |->
  [id |-> "cmd" \o ToString(i - 1), argv |-> Argv(i - 1), asked |-> Asked(Argv(i - 1), Range(Dirs), Lists), dirs |-> Dirs, lists |-> Lists]])
=============================================================================
