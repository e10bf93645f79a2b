------------------------------- MODULE Order -------------------------------
(* The order of a source.  A group is everything said of one zone (its line *)
(* and continuations), of one policy, or of one link.  However the groups   *)
(* are arranged, and over whichever files, the same database results.       *)
EXTENDS Worlds

AllLines(x) == FoldLeft(LAMBDA a, f : IF f \in DOMAIN x.files THEN a \o x.files[f] ELSE a, <<>>, FileNames)
KeyOf(line) == LET p == Words(StripLine(line)) IN
  IF p = <<>> THEN "" ELSE
  CASE p[1] = "Link" /\ Len(p) > 2 -> "L " \o p[3]
    [] p[1] \in {"Zone", "Rule"} /\ Len(p) > 1 -> p[1] \o " " \o p[2]
    [] OTHER -> ""
(* The group each line belongs to: its own, or that of the zone above.      *)
Keys(lines) == FoldLeft(LAMBDA a, x :
   Append(a, IF KeyOf(x) # "" THEN KeyOf(x) ELSE IF a = <<>> THEN "?" ELSE a[Len(a)]), <<>>, lines)
GroupKeys(lines) == LET ks == Keys(lines) IN
   SelectSeq([i \in 1..Len(ks) |-> IF \A j \in 1..(i - 1) : ks[j] # ks[i] THEN ks[i] ELSE ""], LAMBDA x : x # "")
GroupLines(lines, key) == LET ks == Keys(lines) IN
   MapSeq(SelectSeq([i \in 1..Len(lines) |-> i], LAMBDA i : ks[i] = key), LAMBDA i : lines[i])
(* Arrangement p of the groups: reversed, rotated, or strided.              *)
Arranged(g, p) == LET n == Len(g) IN
   IF n = 0 THEN g ELSE
   CASE p = 1 -> [i \in 1..n |-> g[n + 1 - i]]
     [] p = 2 -> [i \in 1..n |-> g[((i + (n \div 2) - 1) % n) + 1]]
     [] p = 3 -> SelectSeq(g, LAMBDA x : Code(Ch(x, Len(x))) % 2 = 0) \o SelectSeq(g, LAMBDA x : Code(Ch(x, Len(x))) % 2 = 1)
     [] p = 4 -> SelectSeq(g, LAMBDA x : HasPrefix(x, "L")) \o SelectSeq(g, LAMBDA x : HasPrefix(x, "Z"))
                 \o SelectSeq(g, LAMBDA x : ~HasPrefix(x, "L") /\ ~HasPrefix(x, "Z"))
Flatten(seqs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, seqs)
Shuffled(x, p) ==
  LET lines == AllLines(x)
      g == Arranged(GroupKeys(lines), p)
      part(r) == Flatten([i \in 1..Len(g) |-> IF (i + p) % 3 = r THEN GroupLines(lines, g[i]) ELSE <<>>])
  IN [x EXCEPT !.files = [africa |-> part(0), europe |-> part(1), southamerica |-> part(2)]]

Result(x) == LET r == ReadAll(x.files) IN
   IF r.fatal THEN <<"refused">> ELSE
   LET s == FoldLeft(LAMBDA a, p : Apply(p, a), Load(x.cfg, r.pol, r.zone, LinksOf(r)), Passes) IN
   IF s.err # "" THEN <<"refused">> ELSE <<"made", [s EXCEPT !.cfg = 0], r.bad, BadLinks(r)>>

OrderInit == /\ w \in Walked /\ fi \in 1..4
             /\ phase = "order" /\ li = 1 /\ rd = Start /\ pi = 1 /\ st = Nothing
OrderNext == UNCHANGED vars
SameResult == Result(w) = Result(Shuffled(w, fi))

ASSUME ndJsonSerialize("orders.ndjson",
  SetToSeq({[id |-> x.id, base |-> x, others |-> [p \in 1..4 |-> Shuffled(x, p)]] : x \in Exported}))
=============================================================================
