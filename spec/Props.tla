------------------------------- MODULE Props -------------------------------
(* The properties of the transformation, as predicates on one recorded      *)
(* execution k = [cfg, ext, tr]: what went in, and what came out.           *)
(* Every one returns the set of names of the clauses that fail.             *)
EXTENDS Processor

Broken(clauses) == {x[1] : x \in {y \in clauses : ~y[2]}}
Only(S, u) == IF u = "all" THEN S ELSE {}
UAll(k) == {"all"}
Ok(k) == k.ext.ok /\ k.tr.ok
Spec(k) == Compile(k.cfg, k.ext.policies, k.ext.zones, k.ext.links)
Zs(k) == DOMAIN k.tr.zones
Ps(k) == DOMAIN k.tr.policies
Ls(k) == DOMAIN k.tr.links
AllOf(seq, T(_)) == \A i \in 1..Len(seq) : T(seq[i])

RuleFields == {"from_year", "to_year", "in_month", "on_day_of_week",
            "on_day_of_month", "at_seconds", "at_seconds_truncated",
            "at_time_suffix", "delta_seconds", "delta_seconds_truncated",
            "letter", "anchor"}
EraFields == {"offset_seconds", "offset_seconds_truncated", "policy_name",
           "era_delta_seconds", "era_delta_seconds_truncated", "format",
           "format_short", "until_year", "until_month", "until_day",
           "until_seconds", "until_seconds_truncated", "until_time_suffix"}
TinyRule == {"from_year_tiny", "to_year_tiny"}
ZoneRec(z, F) == MapSeq(z.eras, LAMBDA e : Restrict2(e, F))
PolRec(p, F) == MapSeq(p.rules, LAMBDA r : Restrict2(r, F))

(* The recorded records of zones and policies are the specified ones, in    *)
(* the given fields; reported one by one.                                   *)
SameZones(k, st, F) ==
  {<<"zone " \o n, ZoneRec(st.Z[n], F) = ZoneRec(k.tr.zones[n], F)>> : n \in Names(st.Z) \cap Zs(k)}
SamePolicies(k, st, F) ==
  {<<"policy " \o n, PolRec(st.P[n], F) = PolRec(k.tr.policies[n], F)>> : n \in Names(st.P) \cap Ps(k)}
SameRefusal(k, st) ==
  {<<"refusal (specified: " \o (IF st.err = "" THEN "accept" ELSE st.err) \o ")",
     (st.err # "") = ~k.tr.ok>>}
SameNames(k, st) ==
  {<<"zones kept", Zs(k) = Names(st.Z)>>,
   <<"policies kept", Ps(k) = Names(st.P)>>,
   <<"links kept", k.tr.links = st.L>>}

(* What is noted of each name: as many notices as there are things to note, *)
(* each naming the source text it is about.                                 *)
SameNotes(S, spec, rec) ==
  {<<"notices of " \o n,
     /\ Len(IF n \in DOMAIN rec THEN rec[n] ELSE <<>>) = Cardinality(Of(spec, n))
     /\ \A x \in Of(spec, n) : \E i \in 1..Len(rec[n]) : HasText(rec[n][i], x[2])>> : n \in S}
CutNoted(S, spec, rec) ==
  {<<"what was truncated is not in the notices of " \o n,
     \A x \in {y \in Of(spec, n) : y[1] \in {"UNTIL cut", "STDOFF cut", "RULES cut", "AT cut", "SAVE cut"}} :
       n \in DOMAIN rec /\ \E i \in 1..Len(rec[n]) : HasText(rec[n][i], x[2])>> : n \in S}

(***************************************************************************)
(* C01: the extracted records are what the lines say, and no line is lost.  *)
(***************************************************************************)
C01(k, u) ==
  LET r == ReadAll(k.files)
      o == k.ext
  IN Broken({<<"a line too short to name its record <=> refused", r.fatal = ~o.ok>>} \cup
      (IF r.fatal \/ ~o.ok THEN {} ELSE
       {<<"rules", r.pol = o.policies>>,
        <<"eras", r.zone = o.zones>>,
        <<"links", LinksOf(r) = o.links>>,
        <<"malformed lines", o.invalid = <<r.bad[1], r.bad[2], BadLinks(r)>>
                             /\ o.ignored = <<0, 0, 0>> >>}))

(***************************************************************************)
(* C02: inside the window nothing changes.  One unit per zone.              *)
(***************************************************************************)
(* The records mean something only if each era ends after the one before    *)
(* it, the last never ends, its policies exist and no rule ends before it   *)
(* begins.                                                                  *)
Sane(k, n) ==
  LET eras == k.ext.zones[n]
      key(i) == LET e == SrcEra(eras[i], k.cfg) IN <<e.uy, e.um, e.ud, e.us>>
  IN /\ \A i \in 2..Len(eras) : TupleLt(key(i - 1), key(i))
     /\ eras[Len(eras)].until_year = Infinity
     /\ \A i \in 1..Len(eras) :
          \/ eras[i].rules = "-" \/ HasCh(eras[i].rules, ":")
          \/ /\ eras[i].rules \in DOMAIN k.ext.policies
             /\ AllOf(k.ext.policies[eras[i].rules], LAMBDA r : r.from_year <= r.to_year)
ZoneUnits(k) == IF Ok(k) THEN {n \in Zs(k) : Sane(k, n)} ELSE {}
HiCap == 2150
LoCap == 1700
SameTimeline(k, n, lo, hi) ==
  \/ lo >= hi
  \/ SrcZone(k.ext.zones, k.ext.policies, n, k.cfg, lo, hi)
       = OutZone(k.tr.zones, k.tr.policies, n, lo, hi)
C02(k, n) ==
  Broken({<<"offset, saving or abbreviation changed inside the window",
            SameTimeline(k, n, MaxOf(k.cfg.start, LoCap), MinOf(k.cfg.until, HiCap))>>})

(***************************************************************************)
(* C23: a processor that reads one year at a time finds the same clocks.    *)
(* Where two rules of a policy take effect within a day of each other, what *)
(* comes first depends on savings such a processor does not know yet; and   *)
(* where a rule and an era's end meet, zic itself may join the two changes  *)
(* into one, which is no fault of either.                                   *)
(***************************************************************************)
NearYears(r, s) == MaxOf(r.fy, MaxOf(s.fy, LoCap))..MinOf(r.ty, MinOf(s.ty, HiCap))
OnDayOf(r, y) == OnDayNum(y, r.m, r.w, r.d)
(* s in year y + dy against r in year y *)
MayMeet(r, s, dy) ==
  \E y \in NearYears(r, [s EXCEPT !.fy = @ - dy, !.ty = @ - dy]) :
     LET d == OnDayOf(r, y) - OnDayOf(s, y + dy) IN -2 < d /\ d < 2
Apart(rules) ==
  \A i \in 1..Len(rules) : \A j \in 1..Len(rules) :
    LET r == rules[i]  s == rules[j]  d == s.m - r.m IN
    /\ i < j /\ -2 < d /\ d < 2 => ~MayMeet(r, s, 0)
    /\ r.m = 12 /\ s.m = 1 => ~MayMeet(r, s, 1)
ByYearUnits(k) ==
  LET zs == ZoneUnits(k)
      uses(n) == {k.ext.zones[n][i].rules : i \in 1..Len(k.ext.zones[n])} \cap DOMAIN k.ext.policies
      close == {p \in UNION {uses(n) : n \in zs} :
                  ~Apart(MapSeq(k.ext.policies[p], LAMBDA r : SrcRule(r, k.cfg)))}
  IN {n \in zs : uses(n) \cap close = {}}
ByYear(segs, y) == Squeeze(Clip(segs, Jan1(y), Jan1(y + 1)))
(* The calendar repeats: a few years around those mentioned, and the ends.  *)
Asked(k, lo, hi) == {y \in lo..hi - 1 :
  (k.tr.origMin - 2 <= y /\ y <= k.tr.origMax + 4) \/ y \in {lo, hi - 1}}
C23(k, n) ==
  LET lo == MaxOf(k.cfg.start, LoCap)  hi == MinOf(k.cfg.until, HiCap)
      src == IF lo < hi THEN SrcZone(k.ext.zones, k.ext.policies, n, k.cfg, lo, hi) ELSE <<>>
      zic == LateMerge(src)
  IN Broken({<<"year " \o ToString(y) \o " read by itself has other clocks than the source",
               LET o == YearOfZone(k.tr.zones, k.tr.policies, n, y)
               IN o = ByYear(zic, y) \/ o = ByYear(src, y)>> : y \in Asked(k, lo, hi)})

(***************************************************************************)
(* C03: what is claimed to be untruncated is exact for all time.            *)
(***************************************************************************)
FlagUnits(k) == IF Ok(k) THEN ZoneUnits(k) \cup {"all"} ELSE {}
(* The calendar repeats, and all eras and rules are seen, from two years    *)
(* before the first year mentioned to five after the last.                  *)
FarLo(k) == MaxOf(MinOf(k.tr.origMin, k.cfg.start) - 2, LoCap)
FarHi(k) == MinOf(MaxOf(k.tr.origMax, k.cfg.until) + 5, HiCap)
C03All(k) ==
  LET t == k.tr  st == Spec(k)
      low == \E n \in Zs(k) : t.zones[n].lower
      upp == \E n \in Zs(k) : t.zones[n].upper
  IN Broken(
   {<<"some zone truncated below <=> reported", t.lower = low>>,
    <<"some zone truncated above <=> reported", t.upper = upp>>,
    <<"accurate since", t.startAcc = IF low THEN k.cfg.start ELSE MinYear>>,
    <<"accurate until", t.untilAcc = IF upp THEN k.cfg.until ELSE Infinity>>}
   \cup (IF st.err # "" THEN {} ELSE
   {<<"years in source and result", <<t.origMin, t.origMax, t.genMin, t.genMax>> = st.orig \o st.gen>>}
   \cup {<<"flags of zone " \o n,
           <<t.zones[n].lower, t.zones[n].upper, t.zones[n].lowerEra, t.zones[n].upperEra>>
           = <<st.Z[n].low, st.Z[n].upp, st.Z[n].lowerEra, st.Z[n].upperEra>> >>
         : n \in Zs(k) \cap Names(st.Z)}
   \cup {<<"flags of policy " \o n,
           <<t.policies[n].lower, t.policies[n].upper>> = <<st.P[n].lower, st.P[n].upper>> >>
         : n \in Ps(k) \cap Names(st.P)}))
C03(k, u) ==
  IF u = "all" THEN C03All(k) ELSE
  LET z == k.tr.zones[u]
      lo == IF z.lower THEN MaxOf(k.cfg.start, LoCap) ELSE FarLo(k)
      hi == IF z.upper THEN MinOf(k.cfg.until, HiCap) ELSE FarHi(k)
  IN Broken({<<"a zone reported as complete differs outside the window",
               SameTimeline(k, u, lo, hi)>>})

(***************************************************************************)
(* C04: everything is kept, or removed for a stated reason, or refused.     *)
(***************************************************************************)
Reasoned(f) == \A n \in DOMAIN f : f[n] # <<>> /\ \A i \in 1..Len(f[n]) : f[n][i] # ""
C04(k, u) ==
  IF ~k.ext.ok THEN {} ELSE
  LET st == Spec(k) IN
  Broken(SameRefusal(k, st) \cup
   (IF ~k.tr.ok THEN {} ELSE
    LET t == k.tr
        wantZ == {n \in DOMAIN k.ext.zones : InList(k.cfg, n)}
        wantL == {n \in DOMAIN k.ext.links : InList(k.cfg, n)}
    IN {<<"zone lost", Zs(k) \cup DOMAIN t.remZ = DOMAIN k.ext.zones>>,
        <<"link lost", Ls(k) \cup DOMAIN t.remL = DOMAIN k.ext.links>>,
        <<"policy lost", Ps(k) \cup DOMAIN t.remP = DOMAIN k.ext.policies>>,
        <<"kept and removed", /\ Zs(k) \cap DOMAIN t.remZ = {}
                              /\ Ls(k) \cap DOMAIN t.remL = {}
                              /\ Ps(k) \cap DOMAIN t.remP = {}>>,
        <<"reason missing", Reasoned(t.remZ) /\ Reasoned(t.remL) /\ Reasoned(t.remP)>>,
        <<"silent loss", k.cfg.scope \in {"extended", "complete"}
                         => Zs(k) = wantZ /\ Ls(k) = wantL>>}
       \cup (IF st.err # "" THEN {} ELSE SameNames(k, st))))

(***************************************************************************)
(* C05: the result is closed and well formed.                              *)
(***************************************************************************)
GoodRule(r) ==
  /\ r.in_month \in 1..12 /\ r.on_day_of_week \in 0..7
  /\ r.on_day_of_month \in -31..31
  /\ (r.on_day_of_week = 0 => r.on_day_of_month >= 1)
  /\ ~(r.on_day_of_week # 0 /\ r.in_month = 1 /\ r.on_day_of_month \in -6..-1)
  /\ ~(r.on_day_of_week # 0 /\ r.in_month = 12 /\ r.on_day_of_month >= 26)
  /\ r.at_seconds \in 0..93599 /\ r.at_time_suffix \in {"w", "s", "u"}
  /\ (r.delta_seconds_truncated \div 900) \in -4..11
  /\ r.letter # "-"
IsAnchor(r) ==
  /\ r.from_year = MinYear /\ r.to_year = MinYear /\ r.in_month = 1
  /\ r.on_day_of_week = 0 /\ r.on_day_of_month = 1
  /\ r.at_seconds = 0 /\ r.at_seconds_truncated = 0 /\ r.at_time_suffix = "w"
  /\ r.delta_seconds = 0 /\ r.delta_seconds_truncated = 0
GoodPolicy(p) ==
  /\ p.rules # <<>> /\ IsAnchor(p.rules[1])
  /\ \A i \in 2..Len(p.rules) : ~p.rules[i].anchor
  /\ AllOf(p.rules, GoodRule)
GoodEra(e) ==
  /\ e.until_month \in 1..12 /\ e.until_day \in 1..31
  /\ e.until_seconds \in 0..93599 /\ e.until_time_suffix \in {"w", "s", "u"}
  /\ e.format # "" /\ (e.policy_name = "" => IndexOf2(e.format, "%s") = 0)
  /\ (IndexOf2(e.format, "%z") > 0 => e.format = "%z")
  /\ (e.policy_name # "" => e.era_delta_seconds = 0 /\ e.era_delta_seconds_truncated = 0)
GoodZone(z) ==
  LET n == Len(z.eras) IN
  /\ n > 0
  /\ \A i \in 2..n : TupleLt(UntilKey(z.eras[i-1]), UntilKey(z.eras[i]))
  /\ \A i \in 1..n : (z.eras[i].until_year = Infinity) <=> (i = n)
  /\ UntilKey(z.eras[n]) = <<Infinity, 1, 1, 0>> /\ z.eras[n].until_time_suffix = "w"
  /\ AllOf(z.eras, GoodEra)
C05(k, u) ==
  IF ~Ok(k) THEN {} ELSE
  LET t == k.tr  st == Spec(k) IN
  Broken(
   {<<"era without its policy", \A n \in Zs(k) : PoliciesOf(t.zones[n]) \subseteq Ps(k)>>,
    <<"link without its zone", \A n \in Ls(k) : t.links[n] \in Zs(k)>>,
    <<"a name both zone and link", Zs(k) \cap Ls(k) = {}>>}
   \cup {<<"malformed zone " \o n, GoodZone(t.zones[n])>> : n \in Zs(k)}
   \cup {<<"malformed policy " \o n, GoodPolicy(t.policies[n])>> : n \in Ps(k)}
   \cup (IF st.err # "" THEN {<<"refusal: " \o st.err, FALSE>>} ELSE
         SameNames(k, st) \cup SameZones(k, st, EraFields) \cup SamePolicies(k, st, RuleFields)))

(***************************************************************************)
(* C06: granularity.                                                       *)
(***************************************************************************)
Cut(v, q, g, strict) == q = TruncTo(v, g) /\ (strict => q = v)
GranEra(e, c) ==
  /\ Cut(e.offset_seconds, e.offset_seconds_truncated, c.og, c.strict)
  /\ Cut(e.era_delta_seconds, e.era_delta_seconds_truncated, c.dg, c.strict)
  /\ Cut(e.until_seconds, e.until_seconds_truncated, c.ug, c.strict)
GranRule(r, c) ==
  /\ Cut(r.at_seconds, r.at_seconds_truncated, c.ug, c.strict)
  /\ Cut(r.delta_seconds, r.delta_seconds_truncated, c.dg, c.strict)
CutEra(e) == \/ e.offset_seconds # e.offset_seconds_truncated
             \/ e.era_delta_seconds # e.era_delta_seconds_truncated
             \/ e.until_seconds # e.until_seconds_truncated
CutRule(r) == \/ r.at_seconds # r.at_seconds_truncated
              \/ r.delta_seconds # r.delta_seconds_truncated
GranFields == {"offset_seconds", "offset_seconds_truncated", "until_seconds",
               "until_seconds_truncated", "era_delta_seconds", "era_delta_seconds_truncated"}
GranRuleFields == {"at_seconds", "at_seconds_truncated", "delta_seconds", "delta_seconds_truncated"}
C06(k, u) ==
  IF ~k.ext.ok THEN {} ELSE
  LET t == k.tr  st == Spec(k) IN
  Broken(SameRefusal(k, st) \cup
   (IF ~t.ok THEN {} ELSE
    {<<"granularity of zone " \o n, AllOf(t.zones[n].eras, LAMBDA e : GranEra(e, k.cfg))>> : n \in Zs(k)}
    \cup {<<"granularity of policy " \o n, AllOf(t.policies[n].rules, LAMBDA r : GranRule(r, k.cfg))>> : n \in Ps(k)}
    \cup {<<"truncated without notice: zone " \o n,
            (\E i \in 1..Len(t.zones[n].eras) : CutEra(t.zones[n].eras[i])) => n \in DOMAIN t.noteZ>> : n \in Zs(k)}
    \cup {<<"truncated without notice: policy " \o n,
            (\E i \in 1..Len(t.policies[n].rules) : CutRule(t.policies[n].rules[i])) => n \in DOMAIN t.noteP>> : n \in Ps(k)}
    \cup (IF st.err # "" THEN {} ELSE
          CutNoted(Zs(k), st.noteZ, t.noteZ) \cup CutNoted(Ps(k), st.noteP, t.noteP) \cup
          SameNames(k, st) \cup SameZones(k, st, GranFields) \cup SamePolicies(k, st, GranRuleFields))))

(***************************************************************************)
(* C07: the basic scope.                                                   *)
(***************************************************************************)
SrcSimple(z) == AllOf(z, LAMBDA e : e.until_year_only)
BasicZone(z) == AllOf(z.eras, LAMBDA e :
  /\ e.until_year # Infinity => UntilKey(e) = <<e.until_year, 1, 1, 0>>
  /\ e.until_time_suffix = "w" /\ e.era_delta_seconds = 0)
BasicPolicy(p) ==
  LET R == SelectSeq(p.rules, LAMBDA r : ~r.anchor) IN
  /\ \A i, j \in 1..Len(R) : i < j =>
       ~(R[i].in_month = R[j].in_month
         /\ MaxOf(R[i].from_year, R[j].from_year) <= MinOf(R[i].to_year, R[j].to_year))
  /\ \A i \in 1..Len(R) : ~(R[i].in_month = 1 /\ R[i].on_day_of_month = 1)
C07(k, u) ==
  IF ~k.ext.ok \/ k.cfg.scope # "basic" THEN {} ELSE
  LET t == k.tr  st == Spec(k) IN
  Broken(SameRefusal(k, st) \cup
   (IF ~t.ok THEN {} ELSE
    {<<"unsupported zone " \o n, BasicZone(t.zones[n])>> : n \in Zs(k)}
    \cup {<<"unsupported policy " \o n, BasicPolicy(t.policies[n])>> : n \in Ps(k)}
    \cup (IF st.err # "" THEN {} ELSE
          SameNames(k, st) \cup {<<"removed", DOMAIN t.remZ = st.remZ /\ DOMAIN t.remP = st.remP>>})))

(***************************************************************************)
(* C10: identifiers.                                                       *)
(***************************************************************************)
C10(k, u) ==
  IF ~k.ext.ok THEN {} ELSE
  LET t == k.tr
      src == DOMAIN k.ext.zones \cup DOMAIN k.ext.links
      clash == Clash([Z |-> k.ext.zones, L |-> k.ext.links], HashOf)
      alike == Clash([Z |-> k.ext.zones, L |-> k.ext.links], Symbol)
               \/ ~Injective(DOMAIN k.ext.policies, Symbol)
      chain == ChainedLink(k.ext.links)
  IN Broken(
   {<<"colliding ids accepted", ~(t.ok /\ clash)>>,
    <<"names that clash as symbols accepted", ~(t.ok /\ alike)>>,
    <<"link to a link accepted", ~(t.ok /\ chain)>>}
   \cup SameRefusal(k, Spec(k))
   \cup (IF ~t.ok THEN {} ELSE
    LET ids == [n \in Zs(k) \cup Ls(k) |-> IF n \in Zs(k) THEN t.zone_ids[n] ELSE t.link_ids[n]] IN
    {<<"an id for every name", DOMAIN t.zone_ids = Zs(k) /\ DOMAIN t.link_ids = Ls(k)>>} \cup
    (IF DOMAIN t.zone_ids # Zs(k) \/ DOMAIN t.link_ids # Ls(k) THEN {} ELSE
    {<<"id depends on the name alone", \A n \in DOMAIN ids : ids[n] = HashOf(n)>>,
     <<"ids unique", Cardinality({ids[n] : n \in DOMAIN ids}) = Cardinality(DOMAIN ids)>>,
     <<"no id is zero", \A n \in DOMAIN ids : ids[n] # <<0, 0>> >>})))

(***************************************************************************)
(* C16: the include list.                                                  *)
(***************************************************************************)
(* k.tr0 is the same compile without the list.                              *)
C16(k, u) ==
  IF ~Ok(k) THEN Broken(IF k.ext.ok THEN SameRefusal(k, Spec(k)) ELSE {}) ELSE
  LET t == k.tr  st == Spec(k)
      full == Compile([k.cfg EXCEPT !.include = <<>>], k.ext.policies, k.ext.zones, k.ext.links)
  IN Broken(
   {<<"not on the list", \A n \in Zs(k) \cup Ls(k) : InList(k.cfg, n)>>,
    <<"excluded without a reason",
        \A n \in (DOMAIN k.ext.zones \cup DOMAIN k.ext.links) :
           ~InList(k.cfg, n) => n \in DOMAIN t.remZ \cup DOMAIN t.remL>>}
   \cup SameRefusal(k, st)
   \cup (IF st.err # "" THEN {} ELSE
     SameNames(k, st) \cup SameZones(k, st, EraFields) \cup SamePolicies(k, st, RuleFields))
   \cup (IF full.err # "" THEN {} ELSE
     {<<"the list changed zone " \o n, ZoneRec(full.Z[n], EraFields) = ZoneRec(t.zones[n], EraFields)>>
        : n \in Zs(k) \cap Names(full.Z)}
     \cup {<<"the list changed policy " \o n, PolRec(full.P[n], RuleFields) = PolRec(t.policies[n], RuleFields)>>
        : n \in Ps(k) \cap Names(full.P)}))
=============================================================================
