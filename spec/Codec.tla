------------------------------- MODULE Codec -------------------------------
(* Every value an AT, UNTIL, STDOFF or SAVE can have, one per state: when   *)
(* it fits, encoding fits the fields and decoding gives it back; when it    *)
(* does not, no field contents stand for it (low resolution: searched).     *)
EXTENDS Encode
CONSTANTS Step
VARIABLES low, v
Init == low \in BOOLEAN /\ v \in {x \in -93599..93599 : x % Step \in {0, 1, Step - 1} \/ x % 60 = 0}
Next == UNCHANGED <<low, v>>
TimeCodec ==
  IF TimeFits(low, v)
  THEN \A s \in {"w", "s", "u"} :
        LET e == EncTime(low, v, s) IN
        /\ DecTime(low, e.code, e.mod) = v /\ DecSuffix(e.mod) = s
        /\ (e.code \in IF low THEN U8 ELSE U16) /\ e.mod \in U8
  ELSE low => \A m \in 0..14 : v - 60 * m < 0 \/ (v - 60 * m) % 900 # 0
EraCodec ==
  \A d \in {x \in {0, 900, -900, -3600, 9900, 3600, 60, -7680, 7620, 1200} : DeltaFits(low, x)} :
    LET e == EncEra(low, v, d) IN
    IF OffFits(low, v) THEN
      /\ DecOff(low, e.off, e.delta, e.rem) = v /\ DecDelta(low, e.delta) = d
      /\ (e.off \in IF low THEN I8 ELSE I16) /\ (e.delta \in IF low THEN U8 ELSE I8) /\ e.rem \in 0..14
    ELSE low => v % 60 # 0
DeltaCodec ==
  IF DeltaFits(low, v) THEN
    /\ DecRuleDelta(low, EncRuleDelta(low, v)) = v
    /\ (EncRuleDelta(low, v) \in IF low THEN 0..15 ELSE I8)
  ELSE \A x \in (IF low THEN 0..15 ELSE I8) : DecRuleDelta(low, x) # v
=============================================================================
