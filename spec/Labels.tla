------------------------------- MODULE Labels -------------------------------
(* C24: what the generated files say, in comments, about their records.     *)
(* Every rule and era carries the words of the source line it was read from *)
(* (raw).  k.gen[lang].heads4 are the headed records of the files of a      *)
(* language, <<kind, name, target, places, records>>, each record           *)
(* <<words of the comment before it, what is said beside its values>>;      *)
(* k.gen[lang].marks are the names said beside symbols.                     *)
EXTENDS Outputs

RuleLabel(r) == (IF r.anchor THEN <<"Anchor:">> ELSE <<>>) \o r.raw
(* An era that does not end, read from a line on which it does.             *)
EraLabel(e) == (IF e.until_year = Infinity /\ EraOf(e.raw).e.until_year # Infinity THEN <<"Extended:">> ELSE <<>>) \o e.raw

SuffixLetter(s) == CASE s = "w" -> "W" [] s = "s" -> "S" [] OTHER -> "U"
TimeSaid(low, secs, suffix, x) ==
  CASE x[2] = "over15" -> x[3] = secs
    [] x[2] = "suffix" -> x[3] = SuffixLetter(suffix)
    [] x[2] = "rest" -> x[3] = IF low THEN (secs \div 60) % 15 ELSE secs % 15
    [] OTHER -> TRUE
RuleSaid(low, r, x) ==
  CASE x[1] = "letterindex" /\ x[2] = "text" -> x[3] = r.letter
    [] x[1] = "fromyeartiny" /\ x[2] = "number" -> x[3] = r.from_year
    [] x[1] = "toyeartiny" /\ x[2] = "number" -> x[3] = r.to_year
    [] x[2] = "delta" -> x[3] = r.delta_seconds_truncated \div 60
    [] HasPrefix(x[1], "at") -> TimeSaid(low, r.at_seconds_truncated, r.at_time_suffix, x)
    [] OTHER -> TRUE
EraSaid(low, e, x) ==
  CASE x[2] = "name" -> x[3] = IF e.policy_name = "" THEN "(none)" ELSE e.policy_name
    [] x[1] = "formatindex" /\ x[2] = "text" -> x[3] = Replace2(e.format, "%s", "%") \/ x[3] = e.format_short
    [] x[2] = "delta" -> x[3] = e.era_delta_seconds_truncated \div 60
    [] x[2] = "minute" -> x[3] = (e.offset_seconds_truncated \div 60) % 15
    [] x[2] \in {"over15", "mod15"} /\ HasPrefix(x[1], "offset") -> x[3] = e.offset_seconds_truncated
    [] HasPrefix(x[1], "until") -> TimeSaid(low, e.until_seconds_truncated, e.until_time_suffix, x)
    [] OTHER -> TRUE

(* The records under the heads of a name are those of the name, in order,   *)
(* labelled with their lines.                                               *)
Headed(hs, recs, Right(_, _)) ==
  /\ Len(hs) = 1
  /\ LET h == hs[1] IN
     /\ MapSeq(h[5], LAMBDA x : x[1]) = MapSeq(recs, LAMBDA r : r.raw)
     /\ \A i \in 1..Len(recs) : \A j \in 1..Len(h[5][i][2]) : Right(recs[i], h[5][i][2][j])
     /\ "count" \in DOMAIN h[4] => h[4]["count"] = Len(recs)
HeadsOf(k, lang) ==
  LET H == k.gen[lang].heads4  t == k.tr  low == lang # "go" /\ IsLow(k)
      by == FoldLeft(LAMBDA f, h : IF h[5] = <<>> THEN f ELSE Append1(f, <<h[1], h[2]>>, h), Empty, H)
      of(kind, n) == IF <<kind, n>> \in DOMAIN by THEN by[<<kind, n>>] ELSE <<>> IN
  {<<lang \o ": records of policy " \o n, Headed(of("Policy", n), t.policies[n].rules, LAMBDA r, x : RuleSaid(low, r, x))>>
    : n \in DOMAIN t.policies} \cup
  {<<lang \o ": records of zone " \o n, Headed(of("Zone", n), t.zones[n].eras, LAMBDA e, x : EraSaid(low, e, x))>>
    : n \in DOMAIN t.zones} \cup
  {<<lang \o ": heads", \A i \in 1..Len(H) :
      CASE H[i][1] = "Policy" -> H[i][2] \in DOMAIN t.policies
        [] H[i][1] = "Zone" -> H[i][2] \in DOMAIN t.zones
        [] H[i][1] = "Link" -> H[i][2] \in DOMAIN t.links /\ H[i][3] = t.links[H[i][2]]
        [] OTHER -> TRUE>>,
   <<lang \o ": a head for every link", lang # "go" =>
      DOMAIN t.links = {h[2] : h \in {x \in Range(H) : x[1] = "Link"}}>>}
NameSaid(t, n) == IF n \in DOMAIN t.links THEN <<n, "->", t.links[n]>> ELSE <<n>>
MarksOf(k, lang) ==
  LET M == k.gen[lang].marks  t == k.tr
      ids == [n \in DOMAIN t.zones \cup DOMAIN t.links |-> HashOf(n)] IN
  {<<lang \o ": names beside symbols", \A i \in 1..Len(M) :
      LET m == M[i] IN
      IF m[2] = "policy" THEN TRUE
      ELSE /\ m[1] \in DOMAIN t.zones \cup DOMAIN t.links
           /\ m[3] = <<>> \/ m[3] = ids[m[1]]
           /\ \/ m[4] = NameSaid(t, m[1]) \/ m[4] = <<m[1]>>
              \/ m[4] = <<m[1], "in", ToString(k.buf.sizes[m[1]][2])>> >>}
GoSaid(k) ==
  LET g == k.gen.go.db  H == k.gen.go.heads4  M == k.gen.go.marks  t == k.tr
      A == FoldLeft(LAMBDA a, h : IF h[1] = "" THEN a \o h[5] ELSE a, <<>>, H)
      Pl == SelectSeq(M, LAMBDA m : m[2] = "policy") IN
  {<<"go: zones and links", 
     /\ Len(A) = NumZ(t) + NumL(t) /\ Len(A) = Len(g.ZoneInfoRecords)
     /\ \A i \in 1..Len(A) : LET wd == A[i][1]  n == wd[3] IN
          /\ wd[1] = ToString(i - 1) \o ":"
          /\ IF wd[2] = "Zone" THEN Len(wd) = 3 /\ n \in DOMAIN t.zones
             ELSE n \in DOMAIN t.links /\ SubSeq(wd, 2, Len(wd)) = <<"Link">> \o NameSaid(t, n)
          /\ g.ZoneInfoRecords[i].ZoneID = HashOf(n)
          /\ \A j \in 1..Len(A[i][2]) : LET x == A[i][2][j] IN
               CASE x[1] = "nameindex" /\ x[2] = "text" -> x[3] = n
                 [] x[1] = "targetindex" -> n \in DOMAIN t.links /\ x[3] = t.links[n]
                 [] x[1] = "eracount" -> n \in DOMAIN t.links
                 [] OTHER -> TRUE>>,
   <<"go: policies",
     /\ Len(Pl) = NumP(t) + 1
     /\ LET placed == {<<H[j][2], H[j][4]["index"]>> : j \in {x \in 1..Len(H) : H[x][1] = "Policy"}} IN
        \A i \in 2..Len(Pl) : LET n == Pl[i][4][3] IN
          /\ Pl[i][4][1] = ToString(i - 1) \o ":"
          /\ n \in DOMAIN t.policies
          /\ <<n, Pl[i][3][1]>> \in placed /\ Pl[i][3][2] = Len(t.policies[n].rules)>>,
   <<"go: places of eras",
     LET at == [n \in DOMAIN t.zones |-> HashOf(n)]
         infos == {<<g.ZoneInfoRecords[i].ZoneID, g.ZoneInfoRecords[i].EraIndex>> : i \in 1..Len(g.ZoneInfoRecords)} IN
     \A j \in 1..Len(H) : H[j][1] = "Zone" => <<at[H[j][2]], H[j][4]["index"]>> \in infos>>}
C24Json(k) ==
  LET db == k.gen.json.db  t == k.tr IN
  {<<"json: policy " \o n, MapSeq(db.policies_map[n].rules, LAMBDA r : r.raw_line) = MapSeq(t.policies[n].rules, LAMBDA r : r.raw)>>
    : n \in DOMAIN t.policies} \cup
  {<<"json: zone " \o n, MapSeq(db.zones_map[n].eras, LAMBDA e : e.raw_line) = MapSeq(t.zones[n].eras, LAMBDA e : e.raw)>>
    : n \in DOMAIN t.zones}
(* The records of the compiled database are those of their lines.           *)
C24Lines(k) ==
  LET r == ReadAll(k.files)
      st == Compile(k.cfg, r.pol, r.zone, LinksOf(r)) IN
  IF st.err # "" THEN {} ELSE
  {<<"lines of policy " \o n, MapSeq(st.P[n].rules, RuleLabel) = MapSeq(k.tr.policies[n].rules, LAMBDA x : x.raw)>>
    : n \in Names(st.P) \cap Ps(k)} \cup
  {<<"lines of zone " \o n, MapSeq(st.Z[n].eras, EraLabel) = MapSeq(k.tr.zones[n].eras, LAMBDA x : x.raw)>>
    : n \in Names(st.Z) \cap Zs(k)}
C24(k, u) ==
  IF ~TrOk(k) THEN Lost(k) ELSE
  Broken(C24Lines(k) \cup (IF ~k.buf.ok THEN {} ELSE
     Put(k) \cup Each(k, {"arduino", "c", "go", "python"}, LAMBDA lang : HeadsOf(k, lang) \cup MarksOf(k, lang))
     \cup Each(k, {"go"}, LAMBDA lang : GoSaid(k))
     \cup Each(k, {"json"}, LAMBDA lang : C24Json(k))))
=============================================================================
