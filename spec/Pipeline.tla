------------------------------ MODULE Pipeline ------------------------------
(* The language-independent transformation: source records in, database     *)
(* records out.  One operator per pass; `Passes` gives their order and      *)
(* `Apply` performs one.  The state is a record                             *)
(*   cfg    the compile configuration                                       *)
(*   Z, P   zones and policies, as functions from names                     *)
(*   L      links, link name -> target                                      *)
(*   remZ, remP, remL   names removed so far, each for a stated reason      *)
(*   noteZ, noteP       what is noted of each name: a set of <<kind, text>>, *)
(*                      text being the source text the notice is about      *)
(*   err    "" or the reason the whole compile is refused                   *)
(*   want   <<zones, links>> that passed the include filter                 *)
(*   orig, gen   <<min, max>> years of source and of result                 *)
EXTENDS Extract

MinYear == -32767
MinTiny == -127
MaxTinyTo == 126
InfTiny == 127

Names(f) == DOMAIN f
Restrict2(f, S) == [x \in S |-> f[x]]
AnyIn(seq, T(_)) == \E i \in 1..Len(seq) : T(seq[i])
AllIn(seq, T(_)) == \A i \in 1..Len(seq) : T(seq[i])
MapSeq(seq, G(_)) == [i \in 1..Len(seq) |-> G(seq[i])]

Fail(st, why) == IF st.err = "" THEN [st EXCEPT !.err = why] ELSE st

(* Keep the zones satisfying T, remove the others.                          *)
KeepZ(st, T(_)) ==
  LET k == {n \in Names(st.Z) : T(st.Z[n])} IN
  [st EXCEPT !.Z = Restrict2(st.Z, k), !.remZ = @ \cup (Names(st.Z) \ k)]
MapZ(st, G(_)) == [st EXCEPT !.Z = [n \in Names(st.Z) |-> G(st.Z[n])]]
Of(f, n) == IF n \in DOMAIN f THEN f[n] ELSE {}
Noting(f, g) == [n \in DOMAIN f \cup {n \in DOMAIN g : g[n] # {}} |-> Of(f, n) \cup Of(g, n)]
NoteZ(st, R(_)) == [st EXCEPT !.noteZ = Noting(@, [n \in Names(st.Z) |-> R(st.Z[n])])]
KeepP(st, T(_)) ==
  LET k == {n \in Names(st.P) : T(st.P[n])} IN
  [st EXCEPT !.P = Restrict2(st.P, k), !.remP = @ \cup (Names(st.P) \ k)]
MapP(st, G(_)) == [st EXCEPT !.P = [n \in Names(st.P) |-> G(st.P[n])]]
NoteP(st, R(_)) == [st EXCEPT !.noteP = Noting(@, [n \in Names(st.P) |-> R(st.P[n])])]
AllNotes(seq, R(_)) == UNION {R(seq[i]) : i \in 1..Len(seq)}
Notice(kind, text, cond) == IF cond THEN {<<kind, text>>} ELSE {}
(* What is odd about a time v, of which q is kept.                          *)
Finer(f, text, v, q) == Notice(f \o " cut", text, v # q) \cup Notice(f \o " seconds", text, v = q /\ v % 60 # 0)
OddTime(f, text, v, q) == Notice(f \o " quarter", text, v % 900 # 0) \cup Finer(f, text, v, q)
OddSave(f, text, v, q) == Notice(f \o " unusual", text, v \notin {0, 3600}) \cup Finer(f, text, v, q)

EraAll(z, T(_)) == AllIn(z.eras, T)
EraAny(z, T(_)) == AnyIn(z.eras, T)
EraMap(z, G(_)) == [z EXCEPT !.eras = MapSeq(@, G)]
RuleAll(p, T(_)) == AllIn(p.rules, T)
RuleAny(p, T(_)) == AnyIn(p.rules, T)
RuleMap(p, G(_)) == [p EXCEPT !.rules = MapSeq(@, G)]

(***************************************************************************)
(* Names: identifiers and symbols.                                         *)
(***************************************************************************)
(* djb2 modulo 2^32 as two 16-bit limbs.                                    *)
HashStep(h, code) == LET lo == 33 * h[2] + code
                         hi == 33 * h[1] + (lo \div 65536)
                     IN <<hi % 65536, lo % 65536>>
HashOf(s) == FoldLeft(LAMBDA h, i : HashStep(h, Code(Ch(s, i))), <<0, 5381>>,
                      [i \in 1..Len(s) |-> i])
(* Symbol spelling: '+' becomes _PLUS_, any other non-alphanumeric '_'.     *)
SymCh(c) == IF c = "+" THEN "_PLUS_" ELSE IF c \in Alnum THEN c ELSE "_"
Symbol(s) == JoinStr([i \in 1..Len(s) |-> SymCh(Ch(s, i))])

Injective(S, F(_)) == Cardinality({F(x) : x \in S}) = Cardinality(S)

(***************************************************************************)
(* Part 1: refusals, and the years mentioned in the data.                  *)
(***************************************************************************)
YearTiny(y, base) == \/ y \in {-32768, MinYear, MaxYear, Infinity}
                     \/ (MinTiny < y - base /\ y - base < MaxTinyTo)
ChainedLink(L) == \E n \in Names(L) : L[n] \in Names(L)
AllNames(st) == Names(st.Z) \cup Names(st.L)
Clash(st, F(_)) ==
  Names(st.Z) \cap Names(st.L) # {} \/ ~Injective(AllNames(st), F)

MinSet(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x >= y
YearRange(Z, P) ==
  LET ey == UNION {{Z[n].eras[i].until_year : i \in 1..Len(Z[n].eras)} : n \in Names(Z)}
      ry == UNION {{P[n].rules[i].from_year :
                      i \in {k \in 1..Len(P[n].rules) : ~P[n].rules[k].anchor}} : n \in Names(P)}
  IN << MinSet(ey \cup ry \cup {MaxYear}, 0),
        MaxSet((ey \ {Infinity}) \cup (ry \ {MaxYear}) \cup {MinYear}, 0) >>

DoGuard(st) ==
  LET c == st.cfg
      s1 == IF c.tiny /\ (~YearTiny(c.start, c.base) \/ ~YearTiny(c.until, c.base))
            THEN Fail(st, "years not tiny") ELSE st
      s2 == IF ChainedLink(st.L) THEN Fail(s1, "link to link") ELSE s1
      s3 == IF Clash(st, HashOf) THEN Fail(s2, "id collision") ELSE s2
      s4 == IF Clash(st, Symbol) \/ ~Injective(Names(st.P), Symbol)
            THEN Fail(s3, "symbol collision") ELSE s3
  IN [s4 EXCEPT !.orig = YearRange(st.Z, st.P)]

(***************************************************************************)
(* Part 2: the include list.                                               *)
(***************************************************************************)
InList(c, n) == c.include = <<>> \/ n \in ToSet(c.include)
DoInclude(st) ==
  LET kz == {n \in Names(st.Z) : InList(st.cfg, n)}
      kl == {n \in Names(st.L) : InList(st.cfg, n)}
  IN [st EXCEPT !.Z = Restrict2(st.Z, kz), !.L = Restrict2(st.L, kl),
                !.remZ = @ \cup (Names(st.Z) \ kz), !.remL = @ \cup (Names(st.L) \ kl),
                !.want = <<Cardinality(kz), Cardinality(kl)>>]

(***************************************************************************)
(* Part 3: zones.                                                          *)
(***************************************************************************)
KeepEras(z, K(_)) ==      \* K: index -> BOOLEAN
  LET keep == Sorted({i \in 1..Len(z.eras) : K(i)})
  IN [k \in 1..Len(keep) |-> z.eras[keep[k]]]

(* Eras that ended before the year before the window.                      *)
DoOld(st) ==
  LET S == st.cfg.start
      cut(z) == LET e == KeepEras(z, LAMBDA i : z.eras[i].until_year >= S - 1) IN
                IF Len(e) = Len(z.eras) THEN z
                ELSE [z EXCEPT !.eras = e, !.lowerEra = (e # <<>>) \/ @]
  IN KeepZ(MapZ(st, cut), LAMBDA z : z.eras # <<>>)

(* Eras that began after the year after the window.                        *)
DoNew(st) ==
  LET U == st.cfg.until
      cut(z) == LET e == KeepEras(z, LAMBDA i : i = 1 \/ z.eras[i-1].until_year <= U + 1) IN
                IF Len(e) = Len(z.eras) THEN z
                ELSE [z EXCEPT !.eras = e, !.upperEra = TRUE]
      s1 == NoteZ(st, LAMBDA z : Notice("eras", ToString(U), Len(cut(z).eras) < Len(z.eras)))
  IN MapZ(s1, cut)

(* The last era left runs for ever, as if its source line gave no UNTIL.    *)
DoExtend(st) ==
  LET ext(z) == LET n == Len(z.eras) IN
        IF z.eras[n].until_year = Infinity THEN z
        ELSE [z EXCEPT !.eras[n] =
                [until_year |-> Infinity, until_month |-> 1, until_day_string |-> "1",
                 until_time |-> "00:00", until_time_suffix |-> "w",
                 until_year_only |-> TRUE] @@ @]
  IN MapZ(st, ext)

DoSimple(st) == IF st.cfg.scope # "basic" THEN st ELSE
                KeepZ(st, LAMBDA z : EraAll(z, LAMBDA e : e.until_year_only))

DoUntilDay(st) ==
  LET valid(e) == LET o == OnDay(e.until_day_string) IN
                  o.ok /\ OnMonthDay(e.until_year, e.until_month, o.w, o.d)[1] \in 1..12
      missing(e) == LET o == OnDay(e.until_day_string) IN
                    o.ok /\ ~OnDayExists(e.until_year, e.until_month, o.w, o.d)
      fill(e) == LET o == OnDay(e.until_day_string)
                     md == OnMonthDay(e.until_year, e.until_month, o.w, o.d)
                 IN [until_month |-> md[1], until_day |-> md[2]] @@ e
      noted(e) == Notice("UNTIL month " \o ToString(e.until_month), e.until_day_string, fill(e).until_month # e.until_month)
      s0 == IF \E n \in Names(st.Z) : EraAny(st.Z[n], missing)
            THEN Fail(st, "no such day") ELSE st
      s1 == KeepZ(s0, LAMBDA z : EraAll(z, LAMBDA e : ~missing(e) /\ valid(e)))
  IN MapZ(NoteZ(s1, LAMBDA z : AllNotes(z.eras, noted)), LAMBDA z : EraMap(z, fill))

DoUntilTime(st) ==
  LET c == st.cfg
      t(e) == TimeSecs(e.until_time)
      q(e) == TruncTo(t(e).v, c.ug)
      valid(e) == t(e).ok /\ t(e).v >= 0 /\ (c.strict => q(e) = t(e).v)
      noted(e) == OddTime("UNTIL", e.until_time, t(e).v, q(e))
      fill(e) == [until_seconds |-> t(e).v, until_seconds_truncated |-> q(e)] @@ e
      s1 == KeepZ(st, LAMBDA z : EraAll(z, valid))
  IN MapZ(NoteZ(s1, LAMBDA z : AllNotes(z.eras, noted)), LAMBDA z : EraMap(z, fill))

DoUntilSuffix(st) ==
  LET ok == IF st.cfg.scope = "basic" THEN {"w"} ELSE {"w", "s", "u"}
      f(e) == IF e.until_time_suffix = "" THEN "w" ELSE e.until_time_suffix
      fill(e) == [e EXCEPT !.until_time_suffix = f(e)]
  IN MapZ(KeepZ(st, LAMBDA z : EraAll(z, LAMBDA e : f(e) \in ok)),
          LAMBDA z : EraMap(z, fill))

DoOffset(st) ==
  LET c == st.cfg
      t(e) == TimeSecs(e.offset_string)
      q(e) == TruncTo(t(e).v, c.og)
      code(e) == TruncTo(q(e), 900) \div 900
      valid(e) == t(e).ok /\ (c.strict => q(e) = t(e).v) /\ code(e) \in -127..127
      noted(e) == Notice("STDOFF quarter", e.offset_string, t(e).v % 1800 # 0)
                  \cup Notice("STDOFF cut", e.offset_string, t(e).v # q(e))
      fill(e) == [offset_seconds |-> t(e).v, offset_seconds_truncated |-> q(e)] @@ e
      s1 == KeepZ(st, LAMBDA z : EraAll(z, valid))
  IN MapZ(NoteZ(s1, LAMBDA z : AllNotes(z.eras, noted)), LAMBDA z : EraMap(z, fill))

DoRules(st) ==
  LET c == st.cfg
      fixed(e) == HasCh(e.rules, ":")
      t(e) == TimeSecs(e.rules)
      q(e) == TruncTo(t(e).v, c.dg)
      valid(e) == fixed(e) => /\ c.scope # "basic"
                              /\ t(e).ok /\ t(e).v # 0
                              /\ (c.strict => q(e) = t(e).v)
      noted(e) == IF fixed(e) THEN OddSave("RULES", e.rules, t(e).v, q(e)) ELSE {}
      fill(e) == [era_delta_seconds |-> IF fixed(e) THEN t(e).v ELSE 0,
                  era_delta_seconds_truncated |-> IF fixed(e) THEN q(e) ELSE 0,
                  policy_name |-> IF fixed(e) \/ e.rules = "-" THEN "" ELSE e.rules] @@ e
      s1 == KeepZ(st, LAMBDA z : EraAll(z, valid))
  IN MapZ(NoteZ(s1, LAMBDA z : AllNotes(z.eras, noted)), LAMBDA z : EraMap(z, fill))

DoFormat(st) ==
  LET bad(e) == \/ e.format = ""
                \/ (IndexOf2(e.format, "%z") > 0 /\ e.format # "%z")
                \/ (e.policy_name = "" /\ IndexOf2(e.format, "%s") > 0)
      noted(e) == Notice("FORMAT", "", e.policy_name # "" /\ IndexOf2(e.format, "%s") = 0 /\ ~HasCh(e.format, "/"))
      s1 == IF \E n \in Names(st.Z) : EraAny(st.Z[n], bad) THEN Fail(st, "bad FORMAT") ELSE st
  IN NoteZ(s1, LAMBDA z : AllNotes(z.eras, noted))

TupleLt(a, b) ==          \* lexicographic, equal lengths
  \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..i - 1 : a[j] = b[j]
UntilKey(e) == <<e.until_year, e.until_month, e.until_day, e.until_seconds>>
DoMono(st) ==
  LET valid(z) == /\ \A i \in 2..Len(z.eras) : TupleLt(UntilKey(z.eras[i-1]), UntilKey(z.eras[i]))
                  /\ z.eras[Len(z.eras)].until_year = Infinity
  IN KeepZ(st, valid)

DoShort(st) ==
  LET fill(e) == [format_short |-> Replace2(Replace2(e.format, "%z", ""), "%s", "%")] @@ e
  IN MapZ(st, LAMBDA z : EraMap(z, fill))

TinyUntil(y, b) == IF y = Infinity \/ y - b >= InfTiny THEN InfTiny
                   ELSE IF y - b <= MinTiny THEN MinTiny ELSE y - b
TinyTo(y, b) == IF y = MaxYear \/ y - b >= MaxTinyTo THEN MaxTinyTo
                ELSE IF y - b <= MinTiny THEN MinTiny ELSE y - b
DoTinyUntil(st) == IF ~st.cfg.tiny THEN st ELSE
  LET fill(e) == [until_year_tiny |-> TinyUntil(e.until_year, st.cfg.base)] @@ e
  IN MapZ(st, LAMBDA z : EraMap(z, fill))

(***************************************************************************)
(* Parts 4 and 5: policies.                                                *)
(***************************************************************************)
PoliciesOf(z) == {z.eras[i].policy_name : i \in 1..Len(z.eras)} \ {""}
UsedPolicies(Z) == UNION {PoliciesOf(Z[n]) : n \in Names(Z)}
DoUnused(st) ==
  LET used == UsedPolicies(st.Z) IN
  [st EXCEPT !.P = Restrict2(st.P, Names(st.P) \cap used),
             !.remP = @ \cup (Names(st.P) \ used)]

(* The rules that can matter in [start-1, until+1): those in force in some  *)
(* year of it, of the earlier ones those that occurred last, and, if none   *)
(* of these is a standard-time rule, the nearest standard-time rules.       *)
YM(r) == <<r.to_year, r.in_month>>
FM(r) == <<r.from_year, r.in_month>>
IsStandard(r) == LET t == TimeSecs(r.delta_offset) IN t.ok /\ t.v = 0
WindowKeep(rules, lo, hi) ==
  LET I == 1..Len(rules)
      before == {i \in I : rules[i].to_year < lo}
      latest == {i \in before : \A j \in before : ~TupleLt(YM(rules[i]), YM(rules[j]))}
      inside == {i \in I : rules[i].to_year >= lo /\ rules[i].from_year < hi}
      core == inside \cup latest
      std == {i \in I : IsStandard(rules[i])}
      stdBefore == std \cap before
      nearest ==
        IF std \cap core # {} THEN {}
        ELSE IF stdBefore # {}
        THEN {i \in stdBefore : \A j \in stdBefore : ~TupleLt(YM(rules[i]), YM(rules[j]))}
        ELSE {i \in std : \A j \in std : ~TupleLt(FM(rules[j]), FM(rules[i]))}
      keep == core \cup nearest
  IN [keep |-> keep,
      below |-> before \ keep,
      above |-> I \ (before \cup inside \cup keep)]
DoWindow(st) ==
  LET lo == st.cfg.start - 1  hi == st.cfg.until + 1
      cut(p) ==
        LET w == WindowKeep(p.rules, lo, hi)
            k == Sorted(w.keep)
        IN IF Len(k) = Len(p.rules) THEN p
           ELSE [p EXCEPT !.rules = [i \in 1..Len(k) |-> p.rules[k[i]]],
                          !.lower = w.below # {}, !.upper = w.above # {}]
  IN KeepP(MapP(st, cut), LAMBDA p : p.rules # <<>>)

DoMulti(st) == IF st.cfg.scope # "basic" THEN st ELSE
  LET clash(p) == \E i, j \in 1..Len(p.rules) :
        /\ i < j /\ p.rules[i].in_month = p.rules[j].in_month
        /\ MaxOf(p.rules[i].from_year, p.rules[j].from_year)
             <= MinOf(p.rules[i].to_year, p.rules[j].to_year)
  IN KeepP(st, LAMBDA p : ~clash(p))

DoAt(st) ==
  LET c == st.cfg
      t(r) == TimeSecs(r.at_time)
      q(r) == TruncTo(t(r).v, c.ug)
      valid(r) == t(r).ok /\ t(r).v >= 0 /\ (c.strict => q(r) = t(r).v)
      noted(r) == OddTime("AT", r.at_time, t(r).v, q(r))
      fill(r) == [at_seconds |-> t(r).v, at_seconds_truncated |-> q(r)] @@ r
      s1 == KeepP(st, LAMBDA p : RuleAll(p, valid))
  IN MapP(NoteP(s1, LAMBDA p : AllNotes(p.rules, noted)), LAMBDA p : RuleMap(p, fill))

DoAtSuffix(st) ==
  LET f(r) == IF r.at_time_suffix = "" THEN "w" ELSE r.at_time_suffix
      fill(r) == [r EXCEPT !.at_time_suffix = f(r)]
  IN MapP(KeepP(st, LAMBDA p : RuleAll(p, LAMBDA r : f(r) \in {"w", "s", "u"})),
          LAMBDA p : RuleMap(p, fill))

DoSave(st) ==
  LET c == st.cfg
      t(r) == TimeSecs(r.delta_offset)
      q(r) == TruncTo(t(r).v, c.dg)
      valid(r) == t(r).ok /\ (c.strict => q(r) = t(r).v) /\ (q(r) \div 900) \in -4..11
      noted(r) == OddSave("SAVE", r.delta_offset, t(r).v, q(r))
      fill(r) == [delta_seconds |-> t(r).v, delta_seconds_truncated |-> q(r)] @@ r
      s1 == KeepP(st, LAMBDA p : RuleAll(p, valid))
  IN MapP(NoteP(s1, LAMBDA p : AllNotes(p.rules, noted)), LAMBDA p : RuleMap(p, fill))

(* A weekday expression that could land in another year cannot be encoded.  *)
LeavesYear(r, o) == o.w # 0 /\ \/ (r.in_month = 1 /\ o.d \in -6..-1)
                               \/ (r.in_month = 12 /\ o.d >= 26)
DoOn(st) ==
  LET valid(r) == LET o == OnDay(r.on_day) IN o.ok /\ ~LeavesYear(r, o)
      fill(r) == LET o == OnDay(r.on_day) IN
                 [on_day_of_week |-> o.w, on_day_of_month |-> o.d] @@ r
  IN MapP(KeepP(st, LAMBDA p : RuleAll(p, valid)), LAMBDA p : RuleMap(p, fill))

(* Every policy starts with a rule in force since the beginning of time:    *)
(* standard time, with the letter of the earliest standard-time rule.       *)
AnchorOf(r) == [from_year |-> MinYear, to_year |-> MinYear, in_month |-> 1,
                on_day_of_week |-> 0, on_day_of_month |-> 1, at_time_suffix |-> "w",
                at_seconds |-> 0, at_seconds_truncated |-> 0, delta_seconds |-> 0,
                delta_seconds_truncated |-> 0, anchor |-> TRUE] @@ r
StandardRules(p) == {i \in 1..Len(p.rules) : p.rules[i].delta_seconds = 0}
FirstDate(r) == LET md == OnMonthDay(r.from_year, r.in_month, r.on_day_of_week, r.on_day_of_month)
                IN <<r.from_year, md[1], md[2]>>
EarliestStandard(p) ==
  CHOOSE i \in StandardRules(p) : \A j \in StandardRules(p) :
     \/ TupleLt(FirstDate(p.rules[i]), FirstDate(p.rules[j]))
     \/ (FirstDate(p.rules[i]) = FirstDate(p.rules[j]) /\ i <= j)
DoAnchor(st) ==
  LET impossible(r) == ~OnDayExists(r.from_year, r.in_month, r.on_day_of_week, r.on_day_of_month)
      bad(p) == ~(Len(p.rules) = 1 /\ StandardRules(p) = {1}) /\ (StandardRules(p) = {} \/ RuleAny(p, impossible))
      s1 == IF \E n \in Names(st.P) : bad(st.P[n]) THEN Fail(st, "no anchor") ELSE st
      add(p) == IF Len(p.rules) = 1 /\ StandardRules(p) = {1} THEN [p EXCEPT !.rules[1] = AnchorOf(@)]
                ELSE IF bad(p) THEN p
                ELSE [p EXCEPT !.rules = <<AnchorOf(p.rules[EarliestStandard(p)])>> \o @]
  IN MapP(s1, add)

DoLetter(st) ==
  LET fill(r) == [r EXCEPT !.letter = IF @ = "-" THEN "" ELSE @]
      s1 == MapP(st, LAMBDA p : RuleMap(p, fill))
  IN NoteP(s1, LAMBDA p : AllNotes(p.rules, LAMBDA r : Notice("LETTER", r.letter, Len(r.letter) > 1)))

DoBorder(st) == IF st.cfg.scope # "basic" THEN st ELSE
  LET bad(r) == r.from_year > MinYear /\ r.to_year > MinYear
                /\ r.in_month = 1 /\ r.on_day_of_month = 1
  IN KeepP(st, LAMBDA p : RuleAll(p, LAMBDA r : ~bad(r)))

DoTinyRule(st) == IF ~st.cfg.tiny THEN st ELSE
  LET fill(r) == [from_year_tiny |-> TinyTo(r.from_year, st.cfg.base),
                  to_year_tiny |-> TinyTo(r.to_year, st.cfg.base)] @@ r
  IN MapP(st, LAMBDA p : RuleMap(p, fill))

(***************************************************************************)
(* Parts 6 and 7: closure, completeness, and the claims about accuracy.    *)
(***************************************************************************)
DoNoPolicy(st) == KeepZ(st, LAMBDA z : PoliciesOf(z) \subseteq Names(st.P))
DoNoTarget(st) ==
  LET k == {n \in Names(st.L) : st.L[n] \in Names(st.Z)} IN
  [st EXCEPT !.L = Restrict2(st.L, k), !.remL = @ \cup (Names(st.L) \ k)]
DoCount(st) ==
  IF st.cfg.scope \in {"extended", "complete"}
     /\ st.want # <<Cardinality(Names(st.Z)), Cardinality(Names(st.L))>>
  THEN Fail(st, "incomplete") ELSE st
DoFlags(st) ==
  LET low(z) == z.lowerEra \/ \E p \in PoliciesOf(z) : st.P[p].lower
      upp(z) == z.upperEra \/ \E p \in PoliciesOf(z) : st.P[p].upper
      s1 == MapZ(st, LAMBDA z : [z EXCEPT !.low = low(z), !.upp = upp(z)])
      L == \E n \in Names(s1.Z) : s1.Z[n].low
      U == \E n \in Names(s1.Z) : s1.Z[n].upp
  IN [s1 EXCEPT !.lower = L, !.upper = U,
                !.acc = <<IF L THEN st.cfg.start ELSE MinYear,
                          IF U THEN st.cfg.until ELSE Infinity>>,
                !.gen = YearRange(s1.Z, s1.P),
                !.err = IF @ = "" /\ \E n \in AllNames(s1) : HashOf(n) = <<0, 0>>
                        THEN "id zero" ELSE @]

Passes == <<"guard", "include", "old", "new", "extend", "simple", "untilday",
  "untiltime", "untilsuffix", "offset", "rules", "format", "mono", "short",
  "tinyuntil", "unused", "window", "multi", "at", "atsuffix", "save", "on",
  "anchor", "letter", "border", "tinyrule", "nopolicy", "notarget", "count", "flags">>

Apply(pass, st) ==
  IF st.err # "" THEN st ELSE
  CASE pass = "guard" -> DoGuard(st)          [] pass = "include" -> DoInclude(st)
    [] pass = "old" -> DoOld(st)              [] pass = "new" -> DoNew(st)
    [] pass = "extend" -> DoExtend(st)        [] pass = "simple" -> DoSimple(st)
    [] pass = "untilday" -> DoUntilDay(st)    [] pass = "untiltime" -> DoUntilTime(st)
    [] pass = "untilsuffix" -> DoUntilSuffix(st) [] pass = "offset" -> DoOffset(st)
    [] pass = "rules" -> DoRules(st)          [] pass = "format" -> DoFormat(st)
    [] pass = "mono" -> DoMono(st)            [] pass = "short" -> DoShort(st)
    [] pass = "tinyuntil" -> DoTinyUntil(st)  [] pass = "unused" -> DoUnused(st)
    [] pass = "window" -> DoWindow(st)        [] pass = "multi" -> DoMulti(st)
    [] pass = "at" -> DoAt(st)                [] pass = "atsuffix" -> DoAtSuffix(st)
    [] pass = "save" -> DoSave(st)            [] pass = "on" -> DoOn(st)
    [] pass = "anchor" -> DoAnchor(st)        [] pass = "letter" -> DoLetter(st)
    [] pass = "border" -> DoBorder(st)        [] pass = "tinyrule" -> DoTinyRule(st)
    [] pass = "nopolicy" -> DoNoPolicy(st)    [] pass = "notarget" -> DoNoTarget(st)
    [] pass = "count" -> DoCount(st)          [] pass = "flags" -> DoFlags(st)

(* The state the passes start from, given the extracted records.            *)
Load(cfg, pol, zone, link) ==
  [cfg |-> cfg,
   Z |-> [n \in DOMAIN zone |-> [eras |-> zone[n], lowerEra |-> FALSE,
                                 upperEra |-> FALSE, low |-> FALSE, upp |-> FALSE]],
   P |-> [n \in DOMAIN pol |->
            [rules |-> MapSeq(pol[n], LAMBDA r : [anchor |-> FALSE] @@ r),
             lower |-> FALSE, upper |-> FALSE]],
   L |-> link,
   remZ |-> {}, remP |-> {}, remL |-> {}, noteZ |-> [n \in {} |-> {}], noteP |-> [n \in {} |-> {}],
   err |-> "", want |-> <<0, 0>>, orig |-> <<0, 0>>, gen |-> <<0, 0>>,
   lower |-> FALSE, upper |-> FALSE, acc |-> <<0, 0>>]

Compile(cfg, pol, zone, link) ==
  FoldLeft(LAMBDA st, p : Apply(p, st), Load(cfg, pol, zone, link), Passes)
=============================================================================
