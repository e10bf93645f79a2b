------------------------------ MODULE Outputs ------------------------------
(* What the generated files hold, read back by compiling, importing or      *)
(* parsing them, against the compiled database (k.tr, k.buf, k.cfg).        *)
EXTENDS Encode

Sum(S, f(_)) == FoldLeft(LAMBDA a, x : a + f(x), 0, SetToSeq(S))
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
NumEras(t) == Sum(DOMAIN t.zones, LAMBDA n : Len(t.zones[n].eras))
NumRules(t) == Sum(DOMAIN t.policies, LAMBDA n : Len(t.policies[n].rules))
NumZ(t) == Cardinality(DOMAIN t.zones)   NumL(t) == Cardinality(DOMAIN t.links)
NumP(t) == Cardinality(DOMAIN t.policies)
(* What the index types of the tables can hold.                             *)
GoFormatsOf(t) == UNION {{Replace2(t.zones[n].eras[i].format, "%s", "%") : i \in 1..Len(t.zones[n].eras)} : n \in DOMAIN t.zones}
Bytes(S) == Sum(S, LAMBDA s : Len(s))
GoFits(k) == LET t == k.tr IN
  /\ Bytes(LettersOf(t)) <= 255 /\ Bytes(GoFormatsOf(t)) <= 65535 /\ Bytes(KeptNames(k)) <= 65535
  /\ NumP(t) + 1 <= 255 /\ NumRules(t) <= 65535 /\ NumEras(t) <= 65535
  /\ \A n \in DOMAIN t.zones : AllOf(t.zones[n].eras, LAMBDA e : DeltaFits(FALSE, e.era_delta_seconds_truncated))
  /\ \A n \in DOMAIN t.policies : AllOf(t.policies[n].rules, LAMBDA r : DeltaFits(FALSE, r.delta_seconds_truncated))
Readable(k, lang) ==
  IF ~k.gen[lang].ok THEN {<<lang \o " not generated", lang = "go" /\ ~GoFits(k)>>}
  ELSE IF "db" \in DOMAIN k.gen[lang] /\ ~k.gen[lang].db.ok THEN {<<lang \o ": " \o k.gen[lang].db.err, FALSE>>}
  ELSE {}
Langs(k, S) == DOMAIN k.gen \cap S
(* Clauses about each language of S that was asked for; unreadable files    *)
(* are a failure of their own.                                              *)
Each(k, S, F(_)) == UNION {IF Readable(k, x) = {} THEN F(x) ELSE Readable(k, x) : x \in Langs(k, S)}
Compiled(k) == TrOk(k) /\ k.buf.ok
(* What was compiled is put together, and encoded unless it cannot be.      *)
Put(k) == {<<"compiled but not put together", k.notes.ok /\ k.zidb.ok>>,
           <<"compiled but not encoded", k.ar.ok \/ ~k.arAsked \/ ~Representable(k)
              \/ Cardinality(UNION {NameFragments(n) : n \in KeptNames(k)}) > 30>>}
(* A source is not refused without need.                                    *)
Lost(k) == IF k.ext.ok /\ ~k.tr.ok THEN Broken(SameRefusal(k, Spec(k))) ELSE {}
IdLt(a, b) == TupleLt(a, b)

(***************************************************************************)
(* C13: Arduino and C.                                                     *)
(***************************************************************************)
CEra(k, e, a) ==
  /\ EraEncoded(IsLow(k), k.cfg.base, e, a)
  /\ a.policy = e.policy_name /\ a.format = e.format_short
  /\ a.month = e.until_month /\ a.day = e.until_day
CRule(k, db, r, a) ==
  /\ RuleEncoded(IsLow(k), k.cfg.base, r, a, LAMBDA i : IF i < Len(db.letters) THEN db.letters[i + 1] ELSE "?")
  /\ a.month = r.in_month /\ a.dow = r.on_day_of_week /\ a.dom = r.on_day_of_month
CContext(k, lang, db) ==
  LET x == db.context  t == k.tr IN
  {<<lang \o ": years of the context", <<x.start, x.until, x.startAcc, x.untilAcc>> = <<k.cfg.start, k.cfg.until, t.startAcc, t.untilAcc>> >>,
   <<lang \o ": base year", lang = "arduino" => x.base = k.cfg.base>>,
   <<lang \o ": maximum number of transitions", x.max = k.buf.max>>,
   <<lang \o ": version", x.version = k.version /\ (lang = "arduino" => db.tzver = k.version)>>,
   <<lang \o ": number of fragments and letters",
     x.numFragments = Len(k.ar.fragments) + 1 /\ x.numLetters = Len(k.ar.letters)>>}
C13Lang(k, lang) ==
  LET db == k.gen[lang].db  t == k.tr
      frag(i) == IF i \in 1..Len(db.fragments) - 1 THEN db.fragments[i + 1] ELSE "?"
      named(n, z) == /\ z.id = HashOf(n) /\ z.constId = z.id /\ z.context
                     /\ ExpandCodes(z.name, frag) = CodesOf(n)
  IN CContext(k, lang, db) \cup
   {<<lang \o ": zone " \o n,
      LET z == db.infos[n] IN /\ named(n, z) /\ z.target = "" /\ z.buf = k.buf.sizes[n][1]
                              /\ SeqPairs(t.zones[n].eras, z.eras, LAMBDA e, a : CEra(k, e, a))>>
    : n \in DOMAIN t.zones} \cup
   {<<lang \o ": link " \o n,
      LET z == db.infos[n] IN /\ named(n, z) /\ z.target = t.links[n] /\ z.shared
                              /\ z.eras = db.infos[t.links[n]].eras>>
    : n \in DOMAIN t.links} \cup
   {<<lang \o ": policy " \o n,
      SeqPairs(t.policies[n].rules, db.policies[n], LAMBDA r, a : CRule(k, db, r, a))>>
    : n \in DOMAIN t.policies}
C13(k, u) == IF ~Compiled(k) THEN Lost(k) ELSE IF ~k.ar.ok THEN Broken(Put(k)) ELSE
  Broken(Put(k) \cup Each(k, {"arduino", "c"}, LAMBDA lang : C13Lang(k, lang)))

(***************************************************************************)
(* C14: Python, JSON, zone list.                                           *)
(***************************************************************************)
PyEraFields == {"policy_name", "format", "until_year", "until_month", "until_day", "until_time_suffix"}
PyEra(e) == [offset_seconds |-> e.offset_seconds_truncated, era_delta_seconds |-> e.era_delta_seconds_truncated,
             until_seconds |-> e.until_seconds_truncated] @@ Restrict2(e, PyEraFields)
PyRuleFields == {"from_year", "to_year", "in_month", "on_day_of_week", "on_day_of_month", "at_time_suffix", "letter"}
PyRule(r) == [at_seconds |-> r.at_seconds_truncated, delta_seconds |-> r.delta_seconds_truncated]
             @@ Restrict2(r, PyRuleFields)
C14Python(k) ==
  LET db == k.gen.python.db  t == k.tr  x == db.context IN
  {<<"python: zone " \o n,
     LET z == db.infos[n] IN z.name = n /\ z.target = "" /\ z.eras = MapSeq(t.zones[n].eras, PyEra)>>
   : n \in DOMAIN t.zones} \cup
  {<<"python: link " \o n,
     LET z == db.infos[n] IN /\ z.name = n /\ z.target = t.links[n]
                             /\ z.eras = MapSeq(t.zones[t.links[n]].eras, PyEra)>>
   : n \in DOMAIN t.links} \cup
  {<<"python: policy " \o n,
     LET p == db.policies[n] IN p.name = n /\ p.rules = MapSeq(t.policies[n].rules, PyRule)>>
   : n \in DOMAIN t.policies} \cup
  {<<"python: context", /\ <<x.start, x.until, x.startAcc, x.untilAcc>> = <<k.cfg.start, k.cfg.until, t.startAcc, t.untilAcc>>
                        /\ x.version = k.version>>,
   <<"python: registries", /\ Range(db.registry) = {<<n, n>> : n \in DOMAIN t.zones} /\ Len(db.registry) = NumZ(t)
                           /\ Range(db.linkRegistry) = {<<n, n>> : n \in DOMAIN t.zones \cup DOMAIN t.links}
                           /\ Len(db.linkRegistry) = NumZ(t) + NumL(t)>>,
   <<"python: nothing else", Len(db.extra) = NumZ(t) + NumL(t) + NumP(t)>>}
(* 2025b is 2502; a label that is no version has no number.                 *)
Letters26 == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
VersionNumber(v) ==
  IF Len(v) >= 5 /\ (\A i \in 1..4 : IsDigit(Ch(v, i))) /\ \E i \in 1..26 : Letters26[i] = Ch(v, 5)
  THEN (NatOf(Take(v, 4)) - 2000) * 100 + (CHOOSE i \in 1..26 : Letters26[i] = Ch(v, 5)) ELSE 0
JsonEra(e) == Restrict2(e, EraFields)
JsonRule(r) == Restrict2(r, RuleFields \ {"anchor"})
C14Json(k) ==
  LET db == k.gen.json.db  t == k.tr  c == k.cfg IN
  {<<"json: zones, links and policies", /\ DOMAIN db.zones_map = DOMAIN t.zones /\ db.links_map = t.links
                                        /\ DOMAIN db.policies_map = DOMAIN t.policies>>,
   <<"json: ids", db.zone_ids = t.zone_ids /\ db.link_ids = t.link_ids>>,
   <<"json: options", /\ <<db.scope, db.start_year, db.until_year, db.until_at_granularity, db.offset_granularity,
                           db.delta_granularity, db.strict>> = <<c.scope, c.start, c.until, c.ug, c.og, c.dg, c.strict>>
                      /\ db.tz_version = k.version /\ db.compress = c.compress
                      /\ db.tz_version_number = VersionNumber(k.version)>>,
   <<"json: years", <<db.original_min_year, db.original_max_year, db.generated_min_year, db.generated_max_year,
                      db.lower_truncated, db.upper_truncated, db.start_year_accurate, db.until_year_accurate>>
                    = <<t.origMin, t.origMax, t.genMin, t.genMax, t.lower, t.upper, t.startAcc, t.untilAcc>> >>,
   <<"json: buffer sizes", /\ db.max_buf_size = k.buf.max /\ DOMAIN db.buf_sizes = DOMAIN k.buf.sizes
                           /\ \A n \in DOMAIN db.buf_sizes : db.buf_sizes[n] = k.buf.sizes[n]>>}
  \cup {<<"json: zone " \o n,
     n \in DOMAIN db.zones_map /\ LET z == db.zones_map[n]  y == t.zones[n] IN
       /\ MapSeq(z.eras, JsonEra) = MapSeq(y.eras, JsonEra)
       /\ <<z.lower_era_truncated, z.upper_era_truncated, z.lower_zone_truncated, z.upper_zone_truncated>>
          = <<y.lowerEra, y.upperEra, y.lower, y.upper>> >>
   : n \in DOMAIN t.zones} \cup
  {<<"json: policy " \o n,
     n \in DOMAIN db.policies_map /\ LET p == db.policies_map[n]  y == t.policies[n] IN
       /\ MapSeq(p.rules, JsonRule) = MapSeq(y.rules, JsonRule)
       /\ <<p.lower_rule_truncated, p.upper_rule_truncated>> = <<y.lower, y.upper>> >>
   : n \in DOMAIN t.policies}
C14List(k) ==
  LET db == k.gen.zonelist.db  t == k.tr IN
  {<<"zone list: the names of the zones, sorted", db.names = SortedStrs(DOMAIN t.zones)>>,
   <<"zone list: count", \A i \in 1..Len(db.count) : db.count[i] = NumZ(t)>>}
C14(k, u) == IF ~Compiled(k) THEN Lost(k) ELSE
  Broken(Put(k) \cup Each(k, {"python"}, LAMBDA x : C14Python(k)) \cup Each(k, {"json"}, LAMBDA x : C14Json(k))
         \cup Each(k, {"zonelist"}, LAMBDA x : C14List(k)))

(***************************************************************************)
(* C11: registries.                                                        *)
(***************************************************************************)
Increasing(ids) == \A i \in 2..Len(ids) : IdLt(ids[i - 1], ids[i])
(* Binary search finds what it looks for: stated, and followed from order.  *)
RECURSIVE Search(_, _, _, _)
Search(ids, x, a, b) == IF a >= b THEN 0 ELSE
  LET m == (a + b) \div 2 IN
  IF ids[m] = x THEN m ELSE IF IdLt(x, ids[m]) THEN Search(ids, x, a, m) ELSE Search(ids, x, m + 1, b)
Registry(lang, what, r, S) ==
  {<<lang \o ": size of the " \o what, r.size = Cardinality(S) /\ Len(r.entries) = Cardinality(S)>>,
   <<lang \o ": every name once in the " \o what, Range(r.entries) = S>>,
   <<lang \o ": the " \o what \o " in order of id", Increasing(r.ids)>>,
   <<lang \o ": ids found in the " \o what,
     \A n \in S : LET i == Search(r.ids, HashOf(n), 1, Len(r.ids) + 1) IN i > 0 /\ r.entries[i] = n>>}
C11C(k, lang) == LET db == k.gen[lang].db IN
  Registry(lang, "zone registry", db.registry, DOMAIN k.tr.zones)
  \cup Registry(lang, "zone and link registry", db.linkRegistry, KeptNames(k))
C11Python(k) == LET db == k.gen.python.db
                    reg(what, r, S) ==
   {<<"python: " \o what, /\ Len(r) = Cardinality(S) /\ {r[i][1] : i \in 1..Len(r)} = S
                          /\ \A i \in 1..Len(r) : r[i][2] = r[i][1]>>} IN
  reg("zone registry", db.registry, DOMAIN k.tr.zones) \cup reg("zone and link registry", db.linkRegistry, KeptNames(k))

(* Reading the Go tables.                                                   *)
B(d, p) == d[p + 1]
B2(d, p) == B(d, p) + 256 * B(d, p + 1)
S1(x) == IF x > 127 THEN x - 256 ELSE x
S2(x) == IF x > 32767 THEN x - 65536 ELSE x
GoText(data, offs, i) == IF i \in 0..Len(offs) - 2 /\ offs[i + 1] <= offs[i + 2] /\ offs[i + 2] <= Len(data)
                         THEN SubSeq(data, offs[i + 1] + 1, offs[i + 2]) ELSE "?"
GoLetter(g, i) == GoText(g.LetterData, g.LetterOffsets, i)
GoFormat(g, i) == GoText(g.FormatData, g.FormatOffsets, i)
GoName(g, i) == GoText(g.NameData, g.NameOffsets, i)
GoRuleSize == 12  GoPolicySize == 4  GoEraSize == 14  GoInfoSize == 12
RawRule(d, i) == LET p == i * GoRuleSize IN
  [FromYear |-> S2(B2(d, p)), ToYear |-> S2(B2(d, p + 2)), InMonth |-> B(d, p + 4), OnDayOfWeek |-> B(d, p + 5),
   OnDayOfMonth |-> S1(B(d, p + 6)), AtSecondsModifier |-> B(d, p + 7), AtSecondsCode |-> B2(d, p + 8),
   DeltaMinutes |-> S1(B(d, p + 10)), LetterIndex |-> B(d, p + 11)]
RawPolicy(d, i) == LET p == i * GoPolicySize IN [RuleIndex |-> B2(d, p), RuleCount |-> B2(d, p + 2)]
RawEra(d, i) == LET p == i * GoEraSize IN
  [FormatIndex |-> B2(d, p), PolicyIndex |-> B(d, p + 2), OffsetSecondsRemainder |-> B(d, p + 3),
   OffsetSecondsCode |-> S2(B2(d, p + 4)), UntilYear |-> S2(B2(d, p + 6)), DeltaMinutes |-> S1(B(d, p + 8)),
   UntilMonth |-> B(d, p + 9), UntilDay |-> B(d, p + 10), UntilSecondsModifier |-> B(d, p + 11),
   UntilSecondsCode |-> B2(d, p + 12)]
RawInfo(d, i) == LET p == i * GoInfoSize IN
  [ZoneID |-> <<B2(d, p + 2), B2(d, p)>>, NameIndex |-> B2(d, p + 4), EraIndex |-> B2(d, p + 6),
   EraCount |-> B2(d, p + 8), TargetIndex |-> B2(d, p + 10)]
GoCount(d, size) == Len(d) \div size
GoTab(d, size, Raw(_, _)) == [i \in 1..GoCount(d, size) |-> Raw(d, i - 1)]
GoInfos(g) == GoTab(g.ZoneInfosData, GoInfoSize, RawInfo)
C11Go(k) ==
  LET g == k.gen.go.db
      T == GoInfos(g)
      ids == [i \in 1..Len(T) |-> T[i].ZoneID]
      names == [i \in 1..Len(T) |-> GoName(g, T[i].NameIndex)]
      S == KeptNames(k)
  IN Registry("go", "table of infos", [size |-> g.ZoneInfoCount, entries |-> names, ids |-> ids], S)
     \cup {<<"go: constants of ids and indexes", DOMAIN g.ids = {Symbol(n) : n \in S} /\ DOMAIN g.indexes = DOMAIN g.ids>>}
     \cup {<<"go: id and index of " \o n,
             Symbol(n) \in DOMAIN g.ids \cap DOMAIN g.indexes =>
               /\ g.ids[Symbol(n)] = HashOf(n)
               /\ g.indexes[Symbol(n)] \in 0..Len(T) - 1 /\ names[g.indexes[Symbol(n)] + 1] = n>> : n \in S}
C11(k, u) == IF ~Compiled(k) THEN Lost(k) ELSE
  Broken(Put(k) \cup Each(k, {"arduino", "c"} , LAMBDA lang : C11C(k, lang)) \cup Each(k, {"go"}, LAMBDA x : C11Go(k))
         \cup Each(k, {"python"}, LAMBDA x : C11Python(k)))

(***************************************************************************)
(* C09: the Go tables.                                                     *)
(***************************************************************************)
GoRule(r) == [from |-> r.from_year, to |-> r.to_year, month |-> r.in_month, dow |-> r.on_day_of_week,
              dom |-> r.on_day_of_month, at |-> r.at_seconds_truncated, suffix |-> r.at_time_suffix,
              delta |-> r.delta_seconds_truncated, letter |-> r.letter]
GoRuleOf(g, x) == [from |-> x.FromYear, to |-> x.ToYear, month |-> x.InMonth, dow |-> x.OnDayOfWeek,
              dom |-> x.OnDayOfMonth, at |-> DecTime(FALSE, x.AtSecondsCode, x.AtSecondsModifier),
              suffix |-> DecSuffix(x.AtSecondsModifier), delta |-> x.DeltaMinutes * 60, letter |-> GoLetter(g, x.LetterIndex)]
GoEra(t, e) == [rules |-> IF e.policy_name = "" THEN <<>> ELSE MapSeq(t.policies[e.policy_name].rules, GoRule),
              none |-> e.policy_name = "", format |-> e.format_short, off |-> e.offset_seconds_truncated,
              delta |-> e.era_delta_seconds_truncated, year |-> e.until_year, month |-> e.until_month, day |-> e.until_day,
              at |-> e.until_seconds_truncated, suffix |-> e.until_time_suffix]
GoEraOf(g, P, x) == [rules |-> IF x.PolicyIndex \in 0..Len(P) - 1 THEN P[x.PolicyIndex + 1] ELSE <<"?">>,
              none |-> x.PolicyIndex = 0, format |-> GoFormat(g, x.FormatIndex),
              off |-> x.OffsetSecondsCode * 15 + x.OffsetSecondsRemainder,
              delta |-> x.DeltaMinutes * 60, year |-> x.UntilYear, month |-> x.UntilMonth, day |-> x.UntilDay,
              at |-> DecTime(FALSE, x.UntilSecondsCode, x.UntilSecondsModifier), suffix |-> DecSuffix(x.UntilSecondsModifier)]
Slice(s, i, n) == IF n >= 0 /\ i >= 0 /\ i + n <= Len(s) THEN SubSeq(s, i + 1, i + n) ELSE <<"?">>
GoContextNames == {"LetterData", "LetterOffsets", "FormatData", "FormatOffsets", "NameData", "NameOffsets"}
GoDataNames == GoContextNames \cup
  {"TzDatabaseVersion", "ZoneRuleChunkSize", "ZonePolicyChunkSize", "ZoneEraChunkSize", "ZoneInfoChunkSize",
   "ZoneRuleCount", "ZonePolicyCount", "ZoneEraCount", "ZoneInfoCount", "ZoneRulesData", "ZonePoliciesData",
   "ZoneErasData", "ZoneInfosData"}
GoContext(k, x, names) ==
  /\ \A f \in names : f \in DOMAIN x /\ x[f] = f
  /\ <<x.StartYear, x.UntilYear, x.StartYearAccurate, x.UntilYearAccurate>>
     = <<k.cfg.start, k.cfg.until, k.tr.startAcc, k.tr.untilAcc>>
  /\ x.MaxTransitions = k.buf.max
GoStrings(data, offs, max) ==
  /\ offs # <<>> /\ offs[1] = 0 /\ offs[Len(offs)] <= Len(data)
  /\ \A i \in 2..Len(offs) : offs[i - 1] <= offs[i]
  /\ \A i \in 1..Len(offs) : offs[i] \in 0..max
C09Go(k) ==
  LET g == k.gen.go.db  t == k.tr
      R == GoTab(g.ZoneRulesData, GoRuleSize, RawRule)
      Q == GoTab(g.ZonePoliciesData, GoPolicySize, RawPolicy)
      E == GoTab(g.ZoneErasData, GoEraSize, RawEra)
      T == GoInfos(g)
      rules == [i \in 1..Len(R) |-> GoRuleOf(g, R[i])]
      P == [i \in 1..Len(Q) |-> Slice(rules, Q[i].RuleIndex, Q[i].RuleCount)]
      eras == [i \in 1..Len(E) |-> GoEraOf(g, P, E[i])]
      at == [n \in KeptNames(k) |-> {i \in 1..Len(T) : GoName(g, T[i].NameIndex) = n}]
      info(n) == T[CHOOSE i \in at[n] : TRUE]
      sized(d, size, count, chunk, want) == Len(d) = size * want /\ count = want /\ chunk = size
  IN
  {<<"go: rule table", sized(g.ZoneRulesData, GoRuleSize, g.ZoneRuleCount, g.ZoneRuleChunkSize, NumRules(t))>>,
   <<"go: policy table", sized(g.ZonePoliciesData, GoPolicySize, g.ZonePolicyCount, g.ZonePolicyChunkSize, NumP(t) + 1)>>,
   <<"go: era table", sized(g.ZoneErasData, GoEraSize, g.ZoneEraCount, g.ZoneEraChunkSize, NumEras(t))>>,
   <<"go: info table", sized(g.ZoneInfosData, GoInfoSize, g.ZoneInfoCount, g.ZoneInfoChunkSize, NumZ(t) + NumL(t))>>,
   <<"go: string tables", /\ GoStrings(g.LetterData, g.LetterOffsets, 255) /\ g.types.LetterOffsets = "[]uint8"
                          /\ GoStrings(g.FormatData, g.FormatOffsets, 65535) /\ g.types.FormatOffsets = "[]uint16"
                          /\ GoStrings(g.NameData, g.NameOffsets, 65535) /\ g.types.NameOffsets = "[]uint16">>,
   <<"go: null policy", Len(P) > 0 /\ P[1] = <<>> >>,
   <<"go: a policy for every policy", {P[i] : i \in 2..Len(P)} = {MapSeq(t.policies[n].rules, GoRule) : n \in DOMAIN t.policies}>>,
   <<"go: package and version", g.package = k.ns /\ g.version = k.version>>,
   <<"go: context", GoContext(k, g.DataContext, GoDataNames) /\ GoContext(k, g.RecordContext, GoContextNames)>>,
   <<"go: records of the test files", /\ g.ZoneRuleRecords = R /\ g.ZonePolicyRecords = Q
                                      /\ g.ZoneEraRecords = E /\ g.ZoneInfoRecords = T>>,
   <<"go: every name once", \A n \in KeptNames(k) : Cardinality(at[n]) = 1>>}
  \cup {<<"go: zone " \o n,
     at[n] # {} /\ LET z == info(n) IN
       /\ z.ZoneID = HashOf(n) /\ z.EraCount > 0
       /\ Slice(eras, z.EraIndex, z.EraCount) = MapSeq(t.zones[n].eras, LAMBDA e : GoEra(t, e))>>
   : n \in DOMAIN t.zones}
  \cup {<<"go: link " \o n,
     at[n] # {} /\ LET z == info(n) IN
       /\ z.ZoneID = HashOf(n) /\ z.EraCount = 0
       /\ z.TargetIndex < Len(T) /\ (z.TargetIndex + 1) \in at[t.links[n]]>>
   : n \in DOMAIN t.links}
C09(k, u) == IF ~Compiled(k) THEN Lost(k) ELSE
  LET made == k.go.ok /\ "go" \in DOMAIN k.gen /\ k.gen.go.ok IN
  Broken({<<"go: fits <=> accepted", GoFits(k) = made>>} \cup
         (IF made THEN Each(k, {"go"}, LAMBDA x : C09Go(k)) ELSE {}))
(* Of sources too large to read the files back.                             *)
C09Fits(k, u) == IF ~Compiled(k) THEN Lost(k) ELSE Broken({<<"go: fits <=> accepted", GoFits(k) = k.go.ok>>})

(***************************************************************************)
(* C17: removals and notices.                                              *)
(***************************************************************************)
Noted(f) == DOMAIN f
PolicyNotes(t, n) == LET P == PoliciesOf(t.zones[n]) \cap DOMAIN t.noteP IN [p \in P |-> t.noteP[p]]
MergedNames(t) == DOMAIN t.noteZ \cup {n \in DOMAIN t.zones : PoliciesOf(t.zones[n]) \cap DOMAIN t.noteP # {}}
ReasonsOf(f, n) == IF n \in DOMAIN f THEN f[n] ELSE <<>>
Merged(t) == [n \in MergedNames(t) |->
   <<ReasonsOf(t.noteZ, n), IF n \in DOMAIN t.zones THEN PolicyNotes(t, n) ELSE Empty>>]
SortedSeq(s) == \A i \in 2..Len(s) : StrLt(s[i - 1], s[i])
Items(f) == [n \in DOMAIN f |-> <<f[n], Empty>>]
NotesOf(t) == ("removed zones" :> Items(t.remZ)) @@ ("removed links" :> Items(t.remL))
  @@ ("removed policies" :> Items(t.remP)) @@ ("noted policies" :> Items(t.noteP))
  @@ ("noted links" :> Items(t.noteL)) @@ ("noted zones" :> Merged(t))
SectionOk(want, s) ==
  /\ s.count = Cardinality(DOMAIN want)
  /\ Len(s.items) = Cardinality(DOMAIN want)
  /\ SortedSeq([i \in 1..Len(s.items) |-> s.items[i][1]])
  /\ \A i \in 1..Len(s.items) :
       LET x == s.items[i] IN
       /\ x[1] \in DOMAIN want
       /\ x[2] = want[x[1]][1] /\ x[3] = want[x[1]][2]
C17Lang(k, lang) ==
  LET N == k.gen[lang].notes  W == NotesOf(k.tr) IN
  {<<lang \o ": comments readable", "badnotes" \notin DOMAIN k.gen[lang]>>,
   <<lang \o ": every section present", "badnotes" \in DOMAIN k.gen[lang]
       \/ UNION {DOMAIN N[f] : f \in DOMAIN N} = DOMAIN W>>}
  \cup UNION {{<<lang \o " " \o f \o ": " \o s, SectionOk(W[s], N[f][s])>> : s \in DOMAIN N[f]} : f \in DOMAIN N}
C17Json(k) ==
  LET db == k.gen.json.db  t == k.tr  m == Merged(t)
      strs(v) == SelectSeq(v, LAMBDA x : x \in Range(v)) IN
  {<<"json: removed and noted", /\ db.removed_zones = t.remZ /\ db.removed_links = t.remL /\ db.removed_policies = t.remP
                                /\ db.notable_zones = t.noteZ /\ db.notable_links = t.noteL /\ db.notable_policies = t.noteP>>,
   <<"json: notices of policies in zones", /\ DOMAIN db.merged_notable_zones = DOMAIN m
      /\ \A n \in DOMAIN m : LET v == db.merged_notable_zones[n]  q == m[n] IN
           v = (IF DOMAIN q[2] = {} THEN q[1] ELSE Append(q[1], q[2]))>>}
C17(k, u) == IF ~Compiled(k) THEN Lost(k) ELSE IF ~k.notes.ok THEN Broken(Put(k)) ELSE
  LET t == k.tr  m == Merged(t) IN
  Broken(
   {<<"a kept zone reported as removed", DOMAIN t.zones \cap DOMAIN t.remZ = {}>>,
    <<"a kept link reported as removed", DOMAIN t.links \cap DOMAIN t.remL = {}>>,
    <<"a kept policy reported as removed", DOMAIN t.policies \cap DOMAIN t.remP = {}>>,
    <<"something removed without a report", /\ DOMAIN k.ext.zones = DOMAIN t.zones \cup DOMAIN t.remZ
                                            /\ DOMAIN k.ext.links = DOMAIN t.links \cup DOMAIN t.remL
                                            /\ DOMAIN k.ext.policies = DOMAIN t.policies \cup DOMAIN t.remP>>,
    <<"a reason missing or twice", \A f \in {t.remZ, t.remL, t.remP, t.noteZ, t.noteL, t.noteP} :
        \A n \in DOMAIN f : f[n] # <<>> /\ Cardinality(Range(f[n])) = Len(f[n]) /\ "" \notin Range(f[n])>>,
    <<"the notices of zones and of their policies", /\ DOMAIN k.notes.merged = DOMAIN m
        /\ \A n \in DOMAIN m : LET v == k.notes.merged[n] IN
             v[1] = m[n][1] /\ v[2] = m[n][2] /\ v[3] = (IF DOMAIN m[n][2] = {} THEN 0 ELSE 1)>>}
   \cup (LET st == Spec(k) IN IF st.err # "" THEN {} ELSE
         SameNotes(DOMAIN t.zones, st.noteZ, t.noteZ) \cup SameNotes(DOMAIN t.policies, st.noteP, t.noteP))
   \cup Put(k) \cup Each(k, {"arduino", "c", "go", "python"}, LAMBDA lang : C17Lang(k, lang))
   \cup Each(k, {"json"}, LAMBDA x : C17Json(k)))

(***************************************************************************)
(* C18: buffer sizes.                                                      *)
(***************************************************************************)
(* k.script: the sizes of each year of a zone, and its first terminal year: *)
(* sizes are the same for all years from two years after it.  k.asked: the  *)
(* years the zone processors were asked for.                                *)
SizeAt(s, y) == LET key == ToString(y) IN IF key \in DOMAIN s.sizes THEN s.sizes[key] ELSE s.default
EstLo(k) == MinOf(k.tr.genMin, k.cfg.start)
EstHi(k) == MaxOf(k.tr.genMax + 1, k.cfg.until)
(* Every year the database may be queried for.                              *)
EstYears(k) == [i \in 1..EstHi(k) - (EstLo(k) - 1) + 1 |-> EstLo(k) - 2 + i]
LargestOf(k, n) ==
  LET Y == EstYears(k)  m == SeqMax(MapSeq(Y, LAMBDA y : SizeAt(k.script[n], y)))
      first == CHOOSE i \in 1..Len(Y) : SizeAt(k.script[n], Y[i]) = m /\ \A j \in 1..(i - 1) : SizeAt(k.script[n], Y[j]) < m
  IN <<m, IF m = 0 THEN 0 ELSE Y[first]>>
MaxTransitions == 8
InlineEra(e) == [offset_seconds |-> e.offset_seconds_truncated, policy_name |-> e.policy_name,
   era_delta_seconds |-> e.era_delta_seconds_truncated, until_year |-> e.until_year, until_month |-> e.until_month,
   until_day |-> e.until_day, until_seconds |-> e.until_seconds_truncated, until_time_suffix |-> e.until_time_suffix,
   format |-> e.format]
C18(k, u) == IF ~TrOk(k) THEN Lost(k) ELSE IF DOMAIN k.tr.zones = {} THEN {} ELSE
  LET t == k.tr  Z == DOMAIN t.zones  b == k.buf
      want == [n \in Z |-> LargestOf(k, n)]
      top == SeqMax(MapSeq(SetToSeq(Z), LAMBDA n : want[n][1]))
  IN Broken(
   {<<"too large <=> refused", b.ok = (top <= MaxTransitions \/ k.cfg.ignore)>>,
    <<"zones given to the processors", DOMAIN k.given = Z>>}
   \cup {<<"zone " \o n \o " given to its processor",
           n \in DOMAIN k.given /\ SeqPairs(t.zones[n].eras, k.given[n], LAMBDA e, x :
             /\ [f \in DOMAIN InlineEra(e) |-> x[f]] = InlineEra(e)
             /\ IF e.policy_name = "" THEN x.rules = <<>> ELSE
                SeqPairs(t.policies[e.policy_name].rules, x.rules, LAMBDA r, y :
                  [f \in DOMAIN PyRule(r) |-> y[f]] = PyRule(r)))>> : n \in Z}
   \cup (IF ~b.ok THEN {} ELSE
    {<<"a size for every zone", DOMAIN b.sizes = Z>>,
     <<"maximum over all zones", b.max = top>>,
     <<"years covered", /\ b.minYear = EstLo(k) /\ DOMAIN k.asked = Z
        /\ b.maxYear = SeqMax(MapSeq(SetToSeq(Z), LAMBDA n : SeqMax(k.asked[n])))>>}
    \cup {<<"largest size of " \o n, n \in DOMAIN b.sizes /\ b.sizes[n] = want[n]>> : n \in Z}
    \cup Each(k, {"arduino", "c"}, LAMBDA lang :
          {<<lang \o ": buffer size of " \o n, k.gen[lang].db.infos[n].buf = want[n][1]>> : n \in Z}
          \cup {<<lang \o ": maximum", k.gen[lang].db.context.max = top>>})
    \cup Each(k, {"go"}, LAMBDA x : {<<"go: maximum", k.gen.go.db.DataContext.MaxTransitions = top>>})
    \cup Each(k, {"json"}, LAMBDA x :
          {<<"json: sizes", k.gen.json.db.buf_sizes = want /\ k.gen.json.db.max_buf_size = top>>})))

(***************************************************************************)
(* C15: the same again, and in another order.                              *)
(***************************************************************************)
Shas(g) == [x \in DOMAIN g |-> IF g[x].ok THEN g[x].sha ELSE Empty]
Contents(g) == [x \in DOMAIN g |-> IF g[x].ok THEN g[x].content ELSE ""]
SameFiles(k, r) ==
  \/ Shas(r.gen) = Shas(k.base.gen)
  \/ /\ r.same = "content" /\ "content" \in DOMAIN r
     /\ Contents(r.content) = Contents(k.full.base)
C15Run(k, r) ==
  LET b == k.base IN
  {<<r.what \o ": records read", r.ext = b.ext>>,
   <<r.what \o ": records compiled", r.tr = b.tr>>,
   <<r.what \o ": accepted", \A s \in {"buf", "ar", "go", "zidb", "notes"} : r[s] = b[s]>>,
   <<r.what \o ": languages generated", DOMAIN r.gen = DOMAIN b.gen /\ \A x \in DOMAIN b.gen : r.gen[x].ok = b.gen[x].ok>>,
   <<r.what \o ": files generated", DOMAIN r.gen = DOMAIN b.gen => SameFiles(k, r)>>}
C15(k, u) == Broken(UNION {C15Run(k, k.runs[i]) : i \in 1..Len(k.runs)})

(***************************************************************************)
(* C21: counts and memory.                                                 *)
(***************************************************************************)
SizeModel(low, bits) ==
  IF low THEN IF bits = 8 THEN [context |-> 16, rule |-> 9, policy |-> 3, era |-> 11, info |-> 13, ptr |-> 2]
              ELSE [context |-> 24, rule |-> 12, policy |-> 8, era |-> 16, info |-> 24, ptr |-> 4]
  ELSE IF bits = 8 THEN [context |-> 16, rule |-> 12, policy |-> 3, era |-> 15, info |-> 13, ptr |-> 2]
       ELSE [context |-> 24, rule |-> 12, policy |-> 8, era |-> 20, info |-> 24, ptr |-> 4]
CStrings(S) == Sum(S, LAMBDA s : Len(s) + 1)
(* The tables: T = [rules, policies, eras, zones, links, names, orig,       *)
(* fragments, letters, formats], the last as sets of strings or sizes.      *)
Totalled(m) == [total |-> m.context + m.rules + m.policies + m.eras + m.zones + m.links + m.registry
                          + m.names + m.fragments + m.formats + m.letters] @@ m
MemOf(T, s) == Totalled(
  [context |-> s.context, rules |-> s.rule * T.rules, policies |-> s.policy * T.policies, eras |-> s.era * T.eras,
   zones |-> s.info * T.zones, links |-> s.info * T.links, registry |-> s.ptr * (T.zones + T.links),
   names |-> T.names, names_original |-> T.orig,
   fragments |-> CStrings(T.fragments) + s.ptr * (Cardinality(T.fragments) + 1),
   formats |-> CStrings(T.formats), letters |-> CStrings(T.letters) + s.ptr * Cardinality(T.letters)])
TablesOfTr(k) == LET t == k.tr IN
  [rules |-> NumRules(t), policies |-> NumP(t), eras |-> NumEras(t), zones |-> NumZ(t), links |-> NumL(t),
   orig |-> CStrings(KeptNames(k)),
   names |-> IF k.cfg.compress THEN Sum(DOMAIN k.ar.names, LAMBDA n : Len(k.ar.names[n]) + 1) ELSE CStrings(KeptNames(k)),
   fragments |-> {k.ar.fragments[i][1] : i \in 1..Len(k.ar.fragments)}, letters |-> {k.ar.letters[i][1] : i \in 1..Len(k.ar.letters)},
   formats |-> {k.ar.formats[i][1] : i \in 1..Len(k.ar.formats)}]
TablesOfC(k, db) ==
  LET Z == {n \in DOMAIN db.infos : db.infos[n].target = ""} IN
  [rules |-> Sum(DOMAIN db.policies, LAMBDA p : Len(db.policies[p])), policies |-> Cardinality(DOMAIN db.policies),
   eras |-> Sum(Z, LAMBDA n : Len(db.infos[n].eras)), zones |-> Cardinality(Z),
   links |-> Cardinality(DOMAIN db.infos) - Cardinality(Z), orig |-> CStrings(KeptNames(k)),
   names |-> Sum(DOMAIN db.infos, LAMBDA n : Len(db.infos[n].name) + 1),
   fragments |-> {db.fragments[i] : i \in 2..Len(db.fragments)}, letters |-> Range(db.letters),
   formats |-> UNION {{db.infos[n].eras[i].format : i \in 1..Len(db.infos[n].eras)} : n \in Z}]
HeadIs(H, sec, key, nums) == \E i \in 1..Len(H) : H[i] = <<sec, key, nums>>
HeadCommon(k, H) == LET t == k.tr IN
  {<<"supported", HeadIs(H, "", "Supported Zones", <<NumZ(t) + NumL(t), NumZ(t), NumL(t)>>)>>,
   <<"unsupported", LET a == Cardinality(DOMAIN t.remZ)  b == Cardinality(DOMAIN t.remL) IN
                    HeadIs(H, "", "Unsupported Zones", <<a + b, a, b>>)>>,
   <<"infos", HeadIs(H, "Records", "Infos", <<NumZ(t) + NumL(t)>>)>>,
   <<"eras", HeadIs(H, "Records", "Eras", <<NumEras(t)>>)>>,
   <<"policies", HeadIs(H, "Records", "Policies", <<NumP(t)>>)>>,
   <<"rules", HeadIs(H, "Records", "Rules", <<NumRules(t)>>)>>}
MemKey == ("Context" :> "context") @@ ("Rules" :> "rules") @@ ("Policies" :> "policies") @@ ("Eras" :> "eras")
  @@ ("Zones" :> "zones") @@ ("Links" :> "links") @@ ("Registry" :> "registry") @@ ("Formats" :> "formats")
  @@ ("Letters" :> "letters") @@ ("Fragments" :> "fragments") @@ ("Names" :> "names") @@ ("TOTAL" :> "total")
HeadMem(H, sec, m, names) ==
  {<<sec \o " " \o x, HeadIs(H, sec, x, <<m[MemKey[x]]>>)>> : x \in names}
HeadYears(k, H) == LET t == k.tr  b(x) == IF x THEN 1 ELSE 0 IN
  {<<"requested years", HeadIs(H, "", "Requested Years", <<k.cfg.start, k.cfg.until>>)>>,
   <<"accurate years", HeadIs(H, "", "Accurate Years", <<t.startAcc, t.untilAcc>>)>>,
   <<"original years", HeadIs(H, "", "Original Years", <<t.origMin, t.origMax>>)>>,
   <<"generated years", HeadIs(H, "", "Generated Years", <<t.genMin, t.genMax>>)>>,
   <<"truncated", HeadIs(H, "", "Lower/Upper Truncated", <<b(t.lower), b(t.upper)>>)>>}
HeadBuf(k, H) ==
  {<<"estimator years", HeadIs(H, "", "Estimator Years", <<k.buf.minYear, k.buf.maxYear>>)>>,
   <<"maximum buffer size", HeadIs(H, "", "Max Buffer Size", <<k.buf.max>>)>>}
(* Clauses about every file, named with language and file.                  *)
Heads(k, lang, F(_)) ==
  LET all == k.gen[lang].heads IN
  UNION {{<<lang \o " " \o f \o ": " \o x[1], x[2]>> : x \in F(all[f])}
         : f \in DOMAIN all \ {"reader_test.go"}}
(* Counts said further down, of the whole or of one record.                 *)
Said(k, x) ==
  LET t == k.tr  z == NumZ(t)  l == NumL(t)
      known == ("supported policies" :> <<NumP(t)>>) @@ ("supported zone policies" :> <<NumP(t)>>) @@ ("policies" :> <<NumP(t)>>)
        @@ ("rules" :> <<NumRules(t)>>) @@ ("numrules" :> <<NumRules(t)>>)
        @@ ("supported eras" :> <<NumEras(t)>>) @@ ("eras" :> <<NumEras(t)>>) @@ ("numeras" :> <<NumEras(t)>>)
        @@ ("supported zones" :> <<z>>) @@ ("zones" :> <<z>>) @@ ("supported links" :> <<l>>) @@ ("links" :> <<l>>)
        @@ ("total" :> <<z + l, z, l>>) @@ ("supported zones and links" :> <<z + l>>)
  IN CASE x[1] = "Policy" /\ x[3] \in {"rules", "rule count"} ->
            x[2] \in DOMAIN t.policies /\ x[4] = <<Len(t.policies[x[2]].rules)>>
       [] x[1] = "Zone" /\ x[3] \in {"eras", "zone eras", "era count"} ->
            x[2] \in DOMAIN t.zones /\ x[4] = <<Len(t.zones[x[2]].eras)>>
       [] x[1] = "" /\ x[3] \in DOMAIN known -> x[4] = known[x[3]]
       [] OTHER -> TRUE
Counted(k, lang) ==
  LET all == k.gen[lang].counts IN
  {<<lang \o " " \o f \o ": counts", \A i \in 1..Len(all[f]) : Said(k, all[f][i])>> : f \in DOMAIN all}
CHeads(k, lang) ==
  LET T == TablesOfC(k, k.gen[lang].db)  low == IsLow(k)
      m8 == MemOf(T, SizeModel(low, 8))  m32 == MemOf(T, SizeModel(low, 32))
      keys == DOMAIN MemKey \ {"Names"}
      names(m) == <<m.names, m.names_original>>
  IN {<<lang \o ": tables counted", T = TablesOfTr(k)>>} \cup Counted(k, lang) \cup
     Heads(k, lang, LAMBDA H : HeadCommon(k, H) \cup HeadYears(k, H) \cup HeadBuf(k, H)
       \cup HeadMem(H, "Memory (8-bits)", m8, keys) \cup HeadMem(H, "Memory (32-bits)", m32, keys)
       \cup {<<"names", /\ HeadIs(H, "Memory (8-bits)", "Names", names(m8))
                        /\ HeadIs(H, "Memory (32-bits)", "Names", names(m32))>>})
GoSum(m) == [total |-> m.rules + m.policies + m.eras + m.zones + m.links + m.registry + m.names + m.formats + m.letters] @@ m
GoMemOf(k, g) == LET T == GoInfos(g)
                     links == Cardinality({i \in 1..Len(T) : T[i].EraCount = 0})
                     names == Len(g.NameData) + 2 * Len(g.NameOffsets) IN GoSum(
  [rules |-> Len(g.ZoneRulesData), policies |-> Len(g.ZonePoliciesData), eras |-> Len(g.ZoneErasData),
   zones |-> Len(g.ZoneInfosData) - links * GoInfoSize, links |-> links * GoInfoSize, registry |-> 0, fragments |-> 0,
   names |-> names, names_original |-> names, formats |-> Len(g.FormatData) + 2 * Len(g.FormatOffsets),
   letters |-> Len(g.LetterData) + Len(g.LetterOffsets)])
GoHeads(k) == LET m == GoMemOf(k, k.gen.go.db) IN
  {<<"go: reported memory of " \o x, x \in DOMAIN k.go.mem /\ k.go.mem[x] = m[x]>> : x \in DOMAIN m} \cup Counted(k, "go") \cup
  Heads(k, "go", LAMBDA H : HeadCommon(k, H) \cup HeadYears(k, H) \cup HeadBuf(k, H)
        \cup HeadMem(H, "Memory", m, DOMAIN MemKey \ {"Context"}))
C21Json(k) == LET db == k.gen.json.db  t == k.tr IN
  {<<"json: counts", <<db.num_zones, db.num_links, db.num_policies, db.num_eras, db.num_rules>>
                     = <<NumZ(t), NumL(t), NumP(t), NumEras(t), NumRules(t)>> >>,
   <<"json: memory", /\ k.ar.ok => db.memory_map8 = k.ar.mem8 /\ db.memory_map32 = k.ar.mem32
                     /\ k.go.ok => db.go_memory_map = k.go.mem>>}
(* What a run says on its way (k.log: for each run of the command line, the *)
(* known lines of its log in order: kind, numbers, names listed, and whether *)
(* all are listed).  Lines of no known kind say nothing.                     *)
SourceLines(k) == LET x == k.ext IN
  <<Sum(DOMAIN x.policies, LAMBDA n : Len(x.policies[n])) + x.ignored[1] + x.invalid[1],
    Sum(DOMAIN x.zones, LAMBDA n : Len(x.zones[n])) + x.ignored[2] + x.invalid[2],
    Cardinality(DOMAIN x.links) + x.ignored[3] + x.invalid[3]>>
RemovedOf(t, kind) == CASE kind = "zones" -> t.remZ [] kind = "policies" -> t.remP [] OTHER -> t.remL
NotedOf(t, kind) == CASE kind = "zones" -> t.noteZ [] kind = "policies" -> t.noteP [] OTHER -> t.noteL
KeptOf(t, kind) == CASE kind = "zones" -> t.zones [] kind = "policies" -> t.policies [] OTHER -> t.links
NameKinds == {"zones", "policies", "links"}
NumNotes(t) == LET m == Merged(t) IN
  Sum(DOMAIN m, LAMBDA n : Len(m[n][1]) + Sum(DOMAIN m[n][2], LAMBDA p : Len(m[n][2][p])))
TimesUsed(k, f) == Sum(KeptNames(k), LAMBDA n : LET p == Split(n, "/") IN Cardinality({i \in 1..Len(p) - 1 : p[i] \o "/" = f}))
Listing(x, M) ==
  /\ Cardinality(Range(x.s)) = Len(x.s) /\ Range(x.s) \subseteq DOMAIN M
  /\ IF x.all THEN Len(x.s) = x.n[1] ELSE Len(x.s) < x.n[1]
SaidTrue(k, x) ==
  LET t == k.tr  e == k.ext
  IN CASE x.k = "lines" -> x.n = SourceLines(k)
       [] x.k = "names" -> x.n = <<Cardinality(DOMAIN e.policies), Cardinality(DOMAIN e.zones), Cardinality(DOMAIN e.links)>>
       [] x.k = "rules read" -> x.n = <<SourceLines(k)[1] - e.ignored[1] - e.invalid[1]>>
       [] x.k = "eras read" -> x.n = <<SourceLines(k)[2] - e.ignored[2] - e.invalid[2]>>
       [] x.k = "ignored" -> x.n = e.ignored
       [] x.k = "invalid" -> x.n = e.invalid
       [] x.k \in {"years", "requested"} -> x.n = <<k.cfg.start, k.cfg.until>>
       [] x.k = "found" -> x.n = <<Cardinality(DOMAIN e.zones), Cardinality(DOMAIN e.policies), Cardinality(DOMAIN e.links)>>
       [] x.k \in NameKinds -> x.n = <<Cardinality(DOMAIN KeptOf(t, x.k)), Cardinality(DOMAIN RemovedOf(t, x.k)), Cardinality(DOMAIN NotedOf(t, x.k))>>
       [] x.k = "generated" -> x.n = <<t.genMin, t.genMax>>
       [] x.k = "checking" -> x.n = <<EstLo(k), EstHi(k)>>
       [] x.k = "largest" -> k.buf.ok =>
            /\ x.n[1] = k.buf.max
            /\ Range(x.s) = {n \in DOMAIN k.buf.sizes : k.buf.sizes[n][1] = k.buf.max} /\ Len(x.s) = Cardinality(Range(x.s))
            /\ \A i \in 1..Len(x.s) : x.n[i + 1] = k.buf.sizes[x.s[i]][2]
       [] x.k = "terminal" -> k.buf.ok => x.n = <<k.buf.maxYear>>
       [] x.k = "comments" -> x.n = <<Cardinality(MergedNames(t)), NumNotes(t)>>
       [] x.k = "arduino" -> x.n = <<NumZ(t), NumP(t), NumL(t)>>
       [] x.k = "go" -> /\ x.n[1] = NumZ(t) /\ x.n[2] \in {NumP(t), NumP(t) + 1}  \* with or without the null policy
                        /\ x.n[5] \in {NumZ(t) + NumL(t), NumZ(t) + NumL(t) + 1}   \* with or without the sentinel
                        /\ LET l == Cardinality(LettersOf(t) \cup {""}) IN x.n[3] \in {l, l + 1}
       [] x.k = "fragment" -> x.n = <<TimesUsed(k, x.s[1])>>
       [] x.k \in {"removed zones", "removed policies", "removed links"} ->
            \E y \in NameKinds : x.k = "removed " \o y /\ Listing(x, RemovedOf(t, y))
       [] x.k \in {"noted zones", "noted policies", "noted links"} ->
            \E y \in NameKinds : x.k = "noted " \o y /\ Listing(x, NotedOf(t, y))
       [] OTHER -> TRUE
(* The removals said step by step do not exceed all of them (a step whose    *)
(* line is of no known kind says nothing).                                   *)
AddsUp(t, log, y) ==
  LET said == SelectSeq(log, LAMBDA x : x.k = "removed " \o y) IN
  said # <<>> => SumSeq(MapSeq(said, LAMBDA x : x.n[1])) <= Cardinality(DOMAIN RemovedOf(t, y))
Reported(k) ==
  IF "log" \notin DOMAIN k THEN {} ELSE UNION {
   {<<"log: " \o k.log[i][j].k, SaidTrue(k, k.log[i][j])>> : j \in 1..Len(k.log[i])}
   \cup {<<"log: removed " \o y \o " add up", AddsUp(k.tr, k.log[i], y)>> : y \in NameKinds} : i \in 1..Len(k.log)}
C21(k, u) == IF ~TrOk(k) THEN Lost(k) ELSE
  LET low == IsLow(k) IN
  Broken(Reported(k) \cup
   (IF ~k.ar.ok THEN {} ELSE
    LET T == TablesOfTr(k) IN
    {<<"memory of the 8-bit model", k.ar.mem8 = MemOf(T, SizeModel(low, 8))>>,
     <<"memory of the 32-bit model", k.ar.mem32 = MemOf(T, SizeModel(low, 32))>>,
     <<"letters and formats", /\ LettersOf(k.tr) \ {""} \subseteq T.letters /\ T.letters \subseteq LettersOf(k.tr)
        /\ Len(k.ar.letters) = Cardinality(T.letters)
        /\ FormatsOf(k.tr) = T.formats /\ Len(k.ar.formats) = Cardinality(T.formats)>>})
   \cup (IF ~k.go.ok THEN {} ELSE 
     LET m == k.go.mem  t == k.tr IN
     {<<"memory of the Go tables",
        /\ <<m.rules, m.policies, m.eras>> = <<NumRules(t) * GoRuleSize, (NumP(t) + 1) * GoPolicySize, NumEras(t) * GoEraSize>>
        /\ <<m.zones, m.links>> = <<NumZ(t) * GoInfoSize, NumL(t) * GoInfoSize>>
        /\ m.total = GoSum([x \in DOMAIN m \ {"total"} |-> m[x]]).total>>})
   \cup (IF ~k.buf.ok THEN {} ELSE
     Put(k) \cup Each(k, {"arduino", "c"}, LAMBDA lang : CHeads(k, lang))
     \cup Each(k, {"go"}, LAMBDA x : GoHeads(k))
     \cup Each(k, {"python"}, LAMBDA x : Counted(k, "python") \cup Heads(k, "python", LAMBDA H : HeadCommon(k, H) \cup HeadYears(k, H)))
     \cup Each(k, {"json"}, LAMBDA x : C21Json(k))))
=============================================================================
