-------------------------------- MODULE Build --------------------------------
(* What follows the passes: sizes are attached, notices merged, strings     *)
(* collected, records encoded, names compressed, tables laid out and the    *)
(* files written; each step may refuse.  The result is a recording like     *)
(* those of the real code, and the clauses that judge those must hold here. *)
(* What a compressor packs and which size a zone has is left open.          *)
EXTENDS Worlds, Outputs
VARIABLES step, d
bvars == <<vars, step, d>>

Low == w.cfg.scope # "complete"
Listed(n, F(_)) == [i \in 1..n |-> F(i)]
Numbered(s, base) == Listed(Len(s), LAMBDA i : <<s[i], i - 1 + base>>)
PosOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
ByKey(S, key, Lt(_, _)) == SortSeq(SetToSeq(S), LAMBDA a, b : Lt(key[a], key[b]))
Starts(lens) == Listed(Len(lens) + 1, LAMBDA i : SumSeq(SubSeq(lens, 1, i - 1)))

BInit == Init /\ step = "passes" /\ d = Empty
Passes_ == /\ step = "passes" /\ phase # "done" /\ Next /\ UNCHANGED <<step, d>>
(* The estimator: any size, the least being one.                            *)
Estimate ==
  /\ step = "passes" /\ phase = "done"
  /\ \E z \in BOOLEAN, m \in {1, 4} :
       LET t == K.tr  Z == DOMAIN t.zones
           sizes == [n \in Z |-> <<1 + (Len(n) % m), w.cfg.start>>] IN
       d' = [tr |-> [noteL |-> Empty] @@ t, compress |-> z,
             buf |-> [ok |-> TRUE, sizes |-> sizes, minYear |-> EstLo([tr |-> t, cfg |-> w.cfg]),
                      maxYear |-> EstHi([tr |-> t, cfg |-> w.cfg]),
                      max |-> FoldLeft(LAMBDA a, n : MaxOf(a, sizes[n][1]), 0, SetToSeq(Z))]]
  /\ step' = "comment" /\ UNCHANGED vars
(* Notices of a policy go with every zone that still uses it.               *)
Comment ==
  /\ step = "comment"
  /\ LET t == d.tr
         used(n) == IF n \in DOMAIN t.zones THEN PoliciesOf(t.zones[n]) ELSE {}
         own == [n \in DOMAIN t.noteZ |-> t.noteZ[n]]
         sub == [n \in {x \in DOMAIN t.zones : used(x) \cap DOMAIN t.noteP # {}} |-> Restrict2(t.noteP, used(n) \cap DOMAIN t.noteP)]
         all == DOMAIN own \cup DOMAIN sub
     IN d' = d @@ [merged |-> [n \in all |-> <<IF n \in DOMAIN own THEN own[n] ELSE <<>>,
                                               IF n \in DOMAIN sub THEN sub[n] ELSE Empty,
                                               IF n \in DOMAIN sub THEN 1 ELSE 0>>]]
  /\ step' = "collect" /\ UNCHANGED vars
Collect ==
  /\ step = "collect"
  /\ d' = d @@ [letters |-> SortedStrs(LettersOf(d.tr)), formats |-> SortedStrs(FormatsOf(d.tr)),
                goFormats |-> SortedStrs(FormatsOf(d.tr)), ids |-> [n \in KeptNames(d) |-> HashOf(n)]]
  /\ step' = (IF Cardinality(LettersOf(d.tr)) > 255 THEN "refused" ELSE "encode") /\ UNCHANGED vars
(* One record after another; the first that does not fit ends it.           *)
AREra(e) ==
  LET x == EncEra(Low, e.offset_seconds_truncated, e.era_delta_seconds_truncated)
      y == EncTime(Low, e.until_seconds_truncated, e.until_time_suffix)
  IN [code |-> y.code, mod |-> y.mod, off |-> x.off, delta |-> x.delta, rem |-> x.rem,
      year |-> IF Low THEN TinyUntil(e.until_year, w.cfg.base) ELSE e.until_year]
ARRule(r) ==
  LET y == EncTime(Low, r.at_seconds_truncated, r.at_time_suffix)
  IN [code |-> y.code, mod |-> y.mod, delta |-> EncRuleDelta(Low, r.delta_seconds_truncated),
      from |-> IF Low THEN TinyTo(r.from_year, w.cfg.base) ELSE r.from_year,
      to |-> IF Low THEN TinyTo(r.to_year, w.cfg.base) ELSE r.to_year,
      letter |-> PosOf(d.letters, r.letter) - 1]
EraGoes(e) == LET a == AREra(e) IN
  /\ e.until_seconds_truncated % Rest(Low) = 0 /\ e.offset_seconds_truncated % Rest(Low) = 0
  /\ a.code \in (IF Low THEN U8 ELSE U16) /\ a.off \in (IF Low THEN I8 ELSE I16)
  /\ e.era_delta_seconds_truncated % (IF Low THEN 900 ELSE 60) = 0
  /\ a.delta \in (IF Low THEN U8 ELSE I8) /\ (Low => (e.era_delta_seconds_truncated \div 900) + 4 \in 0..15)
RuleGoes(r) == LET a == ARRule(r) IN
  /\ r.at_seconds_truncated % Rest(Low) = 0 /\ a.code \in (IF Low THEN U8 ELSE U16)
  /\ r.delta_seconds_truncated % (IF Low THEN 900 ELSE 60) = 0
  /\ a.delta \in (IF Low THEN 0..15 ELSE I8)
Encode ==
  /\ step = "encode"
  /\ LET t == d.tr
         good == /\ \A n \in DOMAIN t.zones : Len(t.zones[n].eras) <= 255 /\ AllOf(t.zones[n].eras, EraGoes)
                 /\ \A n \in DOMAIN t.policies : Len(t.policies[n].rules) <= 255 /\ AllOf(t.policies[n].rules, RuleGoes)
     IN /\ step' = (IF good THEN "compress" ELSE "refused")
        /\ d' = IF ~good THEN d ELSE
             d @@ [eras |-> [n \in DOMAIN t.zones |-> MapSeq(t.zones[n].eras, AREra)],
                   rules |-> [n \in DOMAIN t.policies |-> MapSeq(t.policies[n].rules, ARRule)]]
  /\ UNCHANGED vars
(* Any set of parts of names may be packed, here: all, the frequent, none.  *)
PartsOf(n) == LET p == Split(n, "/") IN [i \in 1..Len(p) - 1 |-> p[i] \o "/"]
Frequent(names) ==
  LET parts == Flat(MapSeq(SetToSeq(names), PartsOf)) IN
  {x \in Range(parts) : Len(x) > 3 /\ Cardinality({i \in 1..Len(parts) : parts[i] = x}) > 3}
Pack(n, frags) ==
  LET p == Split(n, "/")
      one(i) == IF p[i] \o "/" \in Range(frags) THEN <<PosOf(frags, p[i] \o "/")>> ELSE CodesOf(p[i] \o "/")
  IN Flat([i \in 1..Len(p) |-> IF i = Len(p) THEN CodesOf(p[i]) ELSE one(i)])
Compress ==
  /\ step = "compress"
  /\ LET names == KeptNames(d)  all == UNION {Range(PartsOf(n)) : n \in names} IN
     \E S \in IF d.compress THEN {all, Frequent(names), {}} ELSE {{}} :
       LET F == SortedStrs(S) IN
       /\ step' = (IF Len(F) > 30 THEN "refused" ELSE "lay")
       /\ d' = d @@ [fragments |-> F, names |-> [n \in names |-> Pack(n, F)]]
  /\ UNCHANGED vars
(* The tables of the C languages.                                           *)
Lay ==
  /\ step = "lay"
  /\ LET t == d.tr  Z == DOMAIN t.zones
         era(n, i) == LET e == t.zones[n].eras[i] IN
           [policy |-> e.policy_name, format |-> e.format_short, month |-> e.until_month, day |-> e.until_day] @@ d.eras[n][i]
         rule(n, i) == LET r == t.policies[n].rules[i] IN
           [month |-> r.in_month, dow |-> r.on_day_of_week, dom |-> r.on_day_of_month] @@ d.rules[n][i]
         eras == [n \in Z |-> Listed(Len(d.eras[n]), LAMBDA i : era(n, i))]
         info(n, target) == [id |-> d.ids[n], constId |-> d.ids[n], context |-> TRUE, name |-> d.names[n],
           target |-> target, shared |-> TRUE, eras |-> IF target = "" THEN eras[n] ELSE eras[target],
           buf |-> d.buf.sizes[IF target = "" THEN n ELSE target][1]]
         reg(S) == LET s == ByKey(S, d.ids, IdLt) IN
           [size |-> Len(s), entries |-> s, ids |-> Listed(Len(s), LAMBDA i : d.ids[s[i]])]
     IN d' = d @@ [db |->
          [ok |-> TRUE, tzver |-> "2025b", letters |-> d.letters, fragments |-> <<"<null>">> \o d.fragments,
           context |-> [start |-> w.cfg.start, until |-> w.cfg.until, startAcc |-> t.startAcc, untilAcc |-> t.untilAcc,
                        base |-> w.cfg.base, max |-> d.buf.max, version |-> "2025b",
                        numFragments |-> Len(d.fragments) + 1, numLetters |-> Len(d.letters)],
           policies |-> [n \in DOMAIN t.policies |-> Listed(Len(d.rules[n]), LAMBDA i : rule(n, i))],
           infos |-> [n \in KeptNames(d) |-> IF n \in Z THEN info(n, "") ELSE info(n, t.links[n])],
           registry |-> reg(Z), linkRegistry |-> reg(KeptNames(d))]]
  /\ step' = "go" /\ UNCHANGED vars
(* The byte tables of Go.                                                   *)
Byte(x) == <<x % 256>>
LE16(x) == <<x % 256, (x \div 256) % 256>>
Table(seq, Rec(_)) == Flat(MapSeq(seq, Rec))
GoTables ==
  /\ step = "go"
  /\ LET t == d.tr
         pols == SortedStrs(DOMAIN t.policies)
         infos == ByKey(KeptNames(d), d.ids, IdLt)
         zs == SelectSeq(infos, LAMBDA n : n \in DOMAIN t.zones)
         names == SortedStrs(KeptNames(d))
         ruleAt == Starts(MapSeq(pols, LAMBDA n : Len(t.policies[n].rules)))
         eraAt == Starts(MapSeq(zs, LAMBDA n : Len(t.zones[n].eras)))
         mod(s, suffix) == (s % 15) + SuffixCode[suffix]
         fits == /\ \A n \in DOMAIN t.zones : AllOf(t.zones[n].eras, LAMBDA e : DeltaFits(FALSE, e.era_delta_seconds_truncated))
                 /\ \A n \in DOMAIN t.policies : AllOf(t.policies[n].rules, LAMBDA r : DeltaFits(FALSE, r.delta_seconds_truncated))
         RuleB(r) == LE16(r.from_year) \o LE16(r.to_year) \o Byte(r.in_month) \o Byte(r.on_day_of_week) \o Byte(r.on_day_of_month)
           \o Byte(mod(r.at_seconds_truncated, r.at_time_suffix)) \o LE16(r.at_seconds_truncated \div 15)
           \o Byte(r.delta_seconds_truncated \div 60) \o Byte(PosOf(d.letters, r.letter) - 1)
         PolB(n) == LE16(ruleAt[PosOf(pols, n)]) \o LE16(Len(t.policies[n].rules))
         EraB(e) == LE16(PosOf(d.goFormats, e.format_short) - 1) \o Byte(IF e.policy_name = "" THEN 0 ELSE PosOf(pols, e.policy_name))
           \o Byte(e.offset_seconds_truncated % 15) \o LE16(e.offset_seconds_truncated \div 15) \o LE16(e.until_year)
           \o Byte(e.era_delta_seconds_truncated \div 60) \o Byte(e.until_month) \o Byte(e.until_day)
           \o Byte(mod(e.until_seconds_truncated, e.until_time_suffix)) \o LE16(e.until_seconds_truncated \div 15)
         InfoB(n) == LE16(d.ids[n][2]) \o LE16(d.ids[n][1]) \o LE16(PosOf(names, n) - 1)
           \o (IF n \in DOMAIN t.zones THEN LE16(eraAt[PosOf(zs, n)]) \o LE16(Len(t.zones[n].eras)) \o LE16(0)
               ELSE LE16(0) \o LE16(0) \o LE16(PosOf(infos, t.links[n]) - 1))
         rulesD == Flat(MapSeq(pols, LAMBDA n : Table(t.policies[n].rules, RuleB)))
         polsD == LE16(0) \o LE16(0) \o Table(pols, PolB)
         erasD == Flat(MapSeq(zs, LAMBDA n : Table(t.zones[n].eras, EraB)))
         infosD == Table(infos, InfoB)
         self(S) == [x \in S |-> x]
         years == [StartYear |-> w.cfg.start, UntilYear |-> w.cfg.until, StartYearAccurate |-> t.startAcc,
                   UntilYearAccurate |-> t.untilAcc, MaxTransitions |-> d.buf.max]
         offs(s) == Starts(MapSeq(s, LAMBDA x : Len(x)))
         g == [ok |-> TRUE, LetterData |-> JoinStr(d.letters), LetterOffsets |-> offs(d.letters),
               FormatData |-> JoinStr(d.goFormats), FormatOffsets |-> offs(d.goFormats),
               NameData |-> JoinStr(names), NameOffsets |-> offs(names),
               types |-> [LetterOffsets |-> "[]uint8", FormatOffsets |-> "[]uint16", NameOffsets |-> "[]uint16"],
               ZoneRulesData |-> rulesD, ZonePoliciesData |-> polsD, ZoneErasData |-> erasD, ZoneInfosData |-> infosD,
               ZoneRuleCount |-> NumRules(t), ZonePolicyCount |-> Len(pols) + 1, ZoneEraCount |-> NumEras(t), ZoneInfoCount |-> Len(infos),
               ZoneRuleChunkSize |-> 12, ZonePolicyChunkSize |-> 4, ZoneEraChunkSize |-> 14, ZoneInfoChunkSize |-> 12,
               package |-> "zonedbvf", version |-> "2025b",
               DataContext |-> self(GoDataNames) @@ years, RecordContext |-> self(GoContextNames) @@ years,
               ids |-> [s \in {Symbol(n) : n \in DOMAIN d.ids} |-> d.ids[CHOOSE n \in DOMAIN d.ids : Symbol(n) = s]],
               indexes |-> [s \in {Symbol(n) : n \in DOMAIN d.ids} |-> PosOf(infos, CHOOSE n \in DOMAIN d.ids : Symbol(n) = s) - 1],
               ZoneRuleRecords |-> GoTab(rulesD, GoRuleSize, RawRule), ZonePolicyRecords |-> GoTab(polsD, GoPolicySize, RawPolicy),
               ZoneEraRecords |-> GoTab(erasD, GoEraSize, RawEra), ZoneInfoRecords |-> GoTab(infosD, GoInfoSize, RawInfo)]
     IN d' = d @@ [goOk |-> fits, g |-> IF fits THEN g ELSE Empty]
  /\ step' = "write" /\ UNCHANGED vars
(* The comments: sections of what was removed and noted, and the counts.    *)
Section(f) == [count |-> Cardinality(DOMAIN f),
               items |-> MapSeq(SortedStrs(DOMAIN f), LAMBDA n : <<n, f[n][1], f[n][2]>>)]
Sections ==
  LET t == d.tr IN
  ("removed zones" :> Section(Items(t.remZ))) @@ ("removed links" :> Section(Items(t.remL)))
  @@ ("removed policies" :> Section(Items(t.remP))) @@ ("noted policies" :> Section(Items(t.noteP)))
  @@ ("noted links" :> Section(Items(t.noteL))) @@ ("noted zones" :> Section(d.merged))
Counts(z, l, p, r, e) ==
  LET a == Cardinality(DOMAIN d.tr.remZ)  b == Cardinality(DOMAIN d.tr.remL)
      c(x) == IF x THEN 1 ELSE 0 IN
  << <<"", "Supported Zones", <<z + l, z, l>> >>, <<"", "Unsupported Zones", <<a + b, a, b>> >>,
     <<"Records", "Infos", <<z + l>> >>, <<"Records", "Eras", <<e>> >>, <<"Records", "Policies", <<p>> >>, <<"Records", "Rules", <<r>> >>,
     <<"", "Requested Years", <<w.cfg.start, w.cfg.until>> >>, <<"", "Accurate Years", <<d.tr.startAcc, d.tr.untilAcc>> >>,
     <<"", "Original Years", <<d.tr.origMin, d.tr.origMax>> >>, <<"", "Generated Years", <<d.tr.genMin, d.tr.genMax>> >>,
     <<"", "Lower/Upper Truncated", <<c(d.tr.lower), c(d.tr.upper)>> >>,
     <<"", "Estimator Years", <<d.buf.minYear, d.buf.maxYear>> >>, <<"", "Max Buffer Size", <<d.buf.max>> >> >>
MemLines(sec, m, keys) == MapSeq(SetToSeq(keys), LAMBDA x : <<sec, x, IF x = "Names" THEN <<m.names, m.names_original>> ELSE <<m[MemKey[x]]>> >>)
Pairs(ss) == Numbered(ss, 0)
Write ==
  /\ step = "write"
  /\ LET t == d.tr  db == d.db
         k0 == [cfg |-> [compress |-> d.compress, ignore |-> FALSE] @@ w.cfg, files |-> w.files, ext |-> K.ext, tr |-> t, buf |-> d.buf,
                notes |-> [ok |-> TRUE, merged |-> d.merged], zidb |-> [ok |-> TRUE], arAsked |-> TRUE,
                ns |-> "zonedbvf", version |-> "2025b"]
         ar == [ok |-> TRUE, eras |-> d.eras, rules |-> d.rules, letters |-> Pairs(d.letters), formats |-> Pairs(d.formats),
                fragments |-> Numbered(d.fragments, 1), names |-> IF d.compress THEN d.names ELSE Empty]
         T == TablesOfC(k0, db)
         (* counted from what was laid out *)
         m(b) == MemOf(T, SizeModel(Low, b))
         mem == MemLines("Memory (8-bits)", m(8), DOMAIN MemKey) \o MemLines("Memory (32-bits)", m(32), DOMAIN MemKey)
         heads == Counts(T.zones, T.links, T.policies, T.rules, T.eras)
         gm == GoMemOf(k0, d.g)
         arduino == [ok |-> TRUE, db |-> db, notes |-> [file |-> Sections], heads |-> [file |-> heads \o mem],
                     counts |-> [file |-> << <<"", "", "policies", <<T.policies>> >>, <<"", "", "eras", <<T.eras>> >> >>]]
         go == [ok |-> TRUE, db |-> d.g, notes |-> [file |-> Sections], counts |-> [file |-> <<>>],
                heads |-> [file |-> Counts(T.zones, T.links, Len(d.g.ZonePoliciesData) \div 4 - 1, Len(d.g.ZoneRulesData) \div 12,
                                           Len(d.g.ZoneErasData) \div 14)
                                    \o MemLines("Memory", gm, (DOMAIN MemKey \ {"Context", "Names"}))
                                    \o << <<"Memory", "Names", <<gm.names>> >> >>]]
     IN d' = [k |-> k0 @@ [ar |-> [mem8 |-> MemOf(TablesOfTr(k0 @@ [ar |-> ar]), SizeModel(Low, 8)),
                                   mem32 |-> MemOf(TablesOfTr(k0 @@ [ar |-> ar]), SizeModel(Low, 32))] @@ ar,
                           go |-> IF d.goOk THEN [ok |-> TRUE, mem |-> gm] ELSE [ok |-> FALSE],
                           gen |-> IF d.goOk THEN [arduino |-> arduino, go |-> go] ELSE [arduino |-> arduino]]]
  /\ step' = "built" /\ UNCHANGED vars
BEnd == (step \in {"built", "refused"} \/ phase = "refused") /\ UNCHANGED bvars
BNext == Passes_ \/ Estimate \/ Comment \/ Collect \/ Encode \/ Compress \/ Lay \/ GoTables \/ Write \/ BEnd
BSpec == BInit /\ [][BNext]_bvars /\ WF_bvars(BNext)

Built == step = "built"
BuiltC08 == Built => C08(d.k, "all") = {}
BuiltC09 == Built => C09(d.k, "all") = {}
BuiltC11 == Built => C11(d.k, "all") = {}
BuiltC12 == Built => C12(d.k, "all") = {}
BuiltC13 == Built => C13(d.k, "all") = {}
BuiltC17 == Built => C17(d.k, "all") = {}
BuiltC21 == Built => C21(d.k, "all") = {}
(* What cannot be represented is refused, and nothing else.                 *)
RefusedRight ==
  step = "refused" => \/ ~Representable([tr |-> d.tr, cfg |-> w.cfg])
                      \/ Cardinality(UNION {NameFragments(n) : n \in KeptNames(d)}) > 30
BuildEnds == <>(Built \/ step = "refused" \/ phase = "refused")
=============================================================================
