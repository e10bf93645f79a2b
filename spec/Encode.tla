------------------------------- MODULE Encode -------------------------------
(* The fields of the binary databases.  A time or offset is a number of     *)
(* units and a remainder; the resolution is "low" (15 minutes and 1 minute, *)
(* for the basic and extended scopes) or "high" (15 seconds and 1 second).  *)
EXTENDS Props

IsLow(k) == k.cfg.scope # "complete"
SuffixCode == [s \in {"w", "s", "u"} |-> CASE s = "w" -> 0 [] s = "s" -> 16 [] s = "u" -> 32]
Unit(low) == IF low THEN 900 ELSE 15
Rest(low) == IF low THEN 60 ELSE 1

(* How a reader of the database decodes them.                               *)
DecTime(low, code, mod) == code * Unit(low) + (mod % 16) * Rest(low)
DecSuffix(mod) == LET s == 16 * (mod \div 16) IN
  IF s = 0 THEN "w" ELSE IF s = 16 THEN "s" ELSE IF s = 32 THEN "u" ELSE "?"
DecOff(low, off, delta, rem) ==
  IF low THEN off * 900 + (delta \div 16) * 60 ELSE off * 15 + rem
DecDelta(low, delta) == IF low THEN ((delta % 16) - 4) * 900 ELSE delta * 60
DecRuleDelta(low, delta) == IF low THEN (delta - 4) * 900 ELSE delta * 60

(* How they are encoded (Codec checks that the two are inverse).            *)
EncTime(low, s, suffix) ==
  [code |-> s \div Unit(low), mod |-> (s % Unit(low)) \div Rest(low) + SuffixCode[suffix]]
EncEra(low, off, delta) ==
  IF low THEN [off |-> off \div 900, delta |-> 16 * ((off % 900) \div 60) + delta \div 900 + 4, rem |-> 0]
  ELSE [off |-> off \div 15, delta |-> delta \div 60, rem |-> off % 15]
EncRuleDelta(low, delta) == IF low THEN delta \div 900 + 4 ELSE delta \div 60

(* What the fields can hold.                                                *)
U8 == 0..255   I8 == -128..127   U16 == 0..65535   I16 == -32768..32767
TimeFits(low, s) == s >= 0 /\ s % Rest(low) = 0
                    /\ s \div Unit(low) \in (IF low THEN U8 ELSE U16)
DeltaFits(low, d) == IF low THEN d % 900 = 0 /\ (d \div 900 + 4) \in 0..15
                     ELSE d % 60 = 0 /\ (d \div 60) \in I8
OffFits(low, o) == o % Rest(low) = 0 /\ (o \div Unit(low)) \in (IF low THEN I8 ELSE I16)

EraFits(low, e) == /\ TimeFits(low, e.until_seconds_truncated)
                   /\ DeltaFits(low, e.era_delta_seconds_truncated)
                   /\ OffFits(low, e.offset_seconds_truncated)
RuleFits(low, r) == /\ TimeFits(low, r.at_seconds_truncated)
                    /\ DeltaFits(low, r.delta_seconds_truncated)
LettersOf(t) == {""} \cup UNION {{t.policies[n].rules[i].letter : i \in 1..Len(t.policies[n].rules)} : n \in DOMAIN t.policies}
FormatsOf(t) == UNION {{t.zones[n].eras[i].format_short : i \in 1..Len(t.zones[n].eras)} : n \in DOMAIN t.zones}
Representable(k) ==
  LET t == k.tr  low == IsLow(k) IN
  /\ \A n \in DOMAIN t.zones : Len(t.zones[n].eras) <= 255 /\ AllOf(t.zones[n].eras, LAMBDA e : EraFits(low, e))
  /\ \A n \in DOMAIN t.policies : Len(t.policies[n].rules) <= 255 /\ AllOf(t.policies[n].rules, LAMBDA r : RuleFits(low, r))
  /\ Cardinality(LettersOf(t)) <= 255

(* An encoded record holds the values of the record, in fields that fit.    *)
EraEncoded(low, base, e, a) ==
  /\ DecTime(low, a.code, a.mod) = e.until_seconds_truncated
  /\ DecSuffix(a.mod) = e.until_time_suffix
  /\ DecOff(low, a.off, a.delta, a.rem) = e.offset_seconds_truncated
  /\ DecDelta(low, a.delta) = e.era_delta_seconds_truncated
  /\ a.year = (IF low THEN TinyUntil(e.until_year, base) ELSE e.until_year)
  /\ (a.code \in IF low THEN U8 ELSE U16) /\ a.mod \in U8 /\ (a.off \in IF low THEN I8 ELSE I16)
  /\ (a.delta \in IF low THEN U8 ELSE I8) /\ (a.year \in IF low THEN I8 ELSE I16)
  /\ a.rem \in 0..14
RuleEncoded(low, base, r, a, letterAt(_)) ==
  /\ DecTime(low, a.code, a.mod) = r.at_seconds_truncated
  /\ DecSuffix(a.mod) = r.at_time_suffix
  /\ DecRuleDelta(low, a.delta) = r.delta_seconds_truncated
  /\ a.from = (IF low THEN TinyTo(r.from_year, base) ELSE r.from_year)
  /\ a.to = (IF low THEN TinyTo(r.to_year, base) ELSE r.to_year)
  /\ (a.code \in IF low THEN U8 ELSE U16) /\ a.mod \in U8 /\ (a.delta \in IF low THEN U8 ELSE I8)
  /\ ({a.from, a.to} \subseteq IF low THEN I8 ELSE I16)
  /\ a.letter \in U8 /\ letterAt(a.letter) = r.letter
SeqPairs(a, b, Good2(_, _)) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Good2(a[i], b[i])

(* [string, index] pairs as a set of strings at an index.                   *)
At(pairs, i) == {pairs[j][1] : j \in {x \in 1..Len(pairs) : pairs[x][2] = i}}
One(S) == IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE "?none or several"
TrOk(k) == k.ext.ok /\ k.tr.ok

(***************************************************************************)
(* C08: the encoded fields.                                                *)
(***************************************************************************)
C08(k, u) ==
  IF ~TrOk(k) THEN {} ELSE
  LET low == IsLow(k)  t == k.tr IN
  Broken({<<"representable <=> accepted", Representable(k) = k.ar.ok>>} \cup
   (IF ~k.ar.ok THEN {} ELSE
    {<<"encoded zones", DOMAIN k.ar.eras = DOMAIN t.zones>>,
     <<"encoded policies", DOMAIN k.ar.rules = DOMAIN t.policies>>}
    \cup {<<"encoded eras of " \o n,
            n \in DOMAIN k.ar.eras /\ SeqPairs(t.zones[n].eras, k.ar.eras[n], LAMBDA e, a : EraEncoded(low, k.cfg.base, e, a))>>
          : n \in DOMAIN t.zones}
    \cup {<<"encoded rules of " \o n,
            n \in DOMAIN k.ar.rules /\ SeqPairs(t.policies[n].rules, k.ar.rules[n], LAMBDA r, a : RuleEncoded(low, k.cfg.base, r, a, LAMBDA i : One(At(k.ar.letters, i))))>>
          : n \in DOMAIN t.policies}))

(***************************************************************************)
(* C12: compressed names.                                                  *)
(***************************************************************************)
CodesOf(s) == [i \in 1..Len(s) |-> Code(Ch(s, i))]
Flat(seqs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, seqs)
(* frag(i): the fragment with index i.                                      *)
ExpandCodes(codes, frag(_)) ==
  Flat([i \in 1..Len(codes) |-> IF codes[i] < 32 THEN CodesOf(frag(codes[i])) ELSE <<codes[i]>>])
KeptNames(k) == DOMAIN k.tr.zones \cup DOMAIN k.tr.links
NameFragments(n) == LET p == Split(n, "/") IN {p[i] : i \in 1..Len(p) - 1}
C12Names(k, names, frag(_), what) ==
  {<<what \o ": a stored name for every zone and link", DOMAIN names = KeptNames(k)>>,
   <<what \o ": stored names distinct", Cardinality({names[n] : n \in DOMAIN names}) = Cardinality(DOMAIN names)>>}
  \cup {<<what \o ": expands to " \o n, n \in DOMAIN names /\ ExpandCodes(names[n], frag) = CodesOf(n)>>
        : n \in KeptNames(k)}
C12Gen(k, lang) ==
  IF ~k.gen[lang].ok THEN {<<lang \o " generated", FALSE>>} ELSE
  LET db == k.gen[lang].db IN
  IF ~db.ok THEN {<<lang \o ": " \o db.err, FALSE>>} ELSE
  C12Names(k, [n \in DOMAIN db.infos |-> db.infos[n].name],
           LAMBDA i : IF i \in 1..Len(db.fragments) - 1 THEN db.fragments[i + 1] ELSE "?", lang)
  \cup {<<lang \o ": fragment 0 is the end of the string", db.fragments # <<>> /\ db.fragments[1] = "<null>">>,
        <<lang \o ": fewer than 32 fragments", Len(db.fragments) <= 32>>}
C12(k, u) ==
  IF ~TrOk(k) THEN {} ELSE
  IF ~k.ar.ok THEN Broken({<<"refused without need",
        ~Representable(k) \/ Cardinality(UNION {NameFragments(n) : n \in KeptNames(k)}) > 30>>}) ELSE
  LET fr == k.ar.fragments
      idx == {fr[i][2] : i \in 1..Len(fr)} IN
  Broken(
   {<<"fragment indexes distinct", Cardinality(idx) = Len(fr) /\ Cardinality({fr[i][1] : i \in 1..Len(fr)}) = Len(fr)>>,
    <<"fragment indexes between 0 and 32", idx \subseteq 1..31>>,
    <<"fragments not empty", \A i \in 1..Len(fr) : fr[i][1] # "">>}
   \cup (IF k.cfg.compress THEN C12Names(k, k.ar.names, LAMBDA i : One(At(fr, i)), "transformed") ELSE
         {<<"no fragments without compression", fr = <<>> >>})
   \cup UNION {C12Gen(k, lang) : lang \in DOMAIN k.gen \cap {"arduino", "c"}})
=============================================================================
