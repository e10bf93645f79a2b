-------------------------------- MODULE Str --------------------------------
(* Text as TLC strings: characters, words, numbers, prefixes.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Ch(s, i) == SubSeq(s, i, i)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

Digit == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
            CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
              [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
              [] c = "8" -> 8 [] c = "9" -> 9]
IsDigit(c) == c \in DOMAIN Digit

(* An unsigned decimal numeral of at most nine digits (TLC's integers).     *)
IsNat(s) == Len(s) \in 1..9 /\ \A i \in 1..Len(s) : IsDigit(Ch(s, i))
NatOf(s) == FoldLeft(LAMBDA a, i : a * 10 + Digit[Ch(s, i)], 0,
                     [i \in 1..Len(s) |-> i])
IsInt(s) == IsNat(s) \/ (Len(s) > 1 /\ Ch(s, 1) = "-" /\ IsNat(Drop(s, 1)))
IntOf(s) == IF Ch(s, 1) = "-" THEN -NatOf(Drop(s, 1)) ELSE NatOf(s)

(* Index of the first occurrence of character c in s, or 0.                 *)
IndexOf(s, c) == LET at == {i \in 1..Len(s) : Ch(s, i) = c} IN
                 IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j
HasCh(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c
(* Index of the first occurrence of the two-character string cc, or 0.      *)
IndexOf2(s, cc) == LET at == {i \in 1..Len(s) - 1 : SubSeq(s, i, i + 1) = cc} IN
                   IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j

HasText(s, t) == \E i \in 0..Len(s) - Len(t) : SubSeq(s, i + 1, i + Len(t)) = t

Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

(* s cut at every occurrence of the character c.                            *)
Split(s, c) ==
  LET cuts == Sorted({i \in 1..Len(s) : Ch(s, i) = c} \cup {Len(s) + 1})
  IN [k \in 1..Len(cuts) |->
        SubSeq(s, (IF k = 1 THEN 0 ELSE cuts[k-1]) + 1, cuts[k] - 1)]

White == {" ", "\t", "\r", "\f", "\n"}

(* s with every line comment and all trailing white space removed.          *)
StripLine(s) ==
  LET h == IndexOf(s, "#")
      t == IF h = 0 THEN s ELSE Take(s, h - 1)
      ink == {i \in 1..Len(t) : Ch(t, i) \notin White}
  IN IF ink = {} THEN "" ELSE Take(t, CHOOSE i \in ink : \A j \in ink : j <= i)

(* The maximal runs of non-white characters, left to right.                 *)
Words(s) ==
  LET n == Len(s)
      ink == {i \in 1..n : Ch(s, i) \notin White}
      starts == Sorted({i \in ink : (i - 1) \notin ink})
      ends == Sorted({i \in ink : (i + 1) \notin ink})
  IN [k \in 1..Len(starts) |-> SubSeq(s, starts[k], ends[k])]

(* Replace every occurrence of the two-character string cc by r.            *)
RECURSIVE Replace2(_, _, _)
Replace2(s, cc, r) ==
  LET i == IndexOf2(s, cc) IN
  IF i = 0 THEN s ELSE Take(s, i - 1) \o r \o Replace2(Drop(s, i + 1), cc, r)

JoinStr(seq) == FoldLeft(LAMBDA a, b : a \o b, "", seq)

LowerMap == [c \in {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O",
                    "P","Q","R","S","T","U","V","W","X","Y","Z"} |->
   CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d"
     [] c = "E" -> "e" [] c = "F" -> "f" [] c = "G" -> "g" [] c = "H" -> "h"
     [] c = "I" -> "i" [] c = "J" -> "j" [] c = "K" -> "k" [] c = "L" -> "l"
     [] c = "M" -> "m" [] c = "N" -> "n" [] c = "O" -> "o" [] c = "P" -> "p"
     [] c = "Q" -> "q" [] c = "R" -> "r" [] c = "S" -> "s" [] c = "T" -> "t"
     [] c = "U" -> "u" [] c = "V" -> "v" [] c = "W" -> "w" [] c = "X" -> "x"
     [] c = "Y" -> "y" [] c = "Z" -> "z"]
LowerCh(c) == IF c \in DOMAIN LowerMap THEN LowerMap[c] ELSE c
Lower(s) == JoinStr([i \in 1..Len(s) |-> LowerCh(Ch(s, i))])

(* Printable ASCII in code order, from 32 (space) to 126 (tilde).           *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ" \o
         "[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeMap == [c \in {Ch(Ascii, i) : i \in 1..95} |->
              31 + (CHOOSE i \in 1..95 : Ch(Ascii, i) = c)]
Code(c) == CodeMap[c]
Alnum == {Ch(Ascii, i) : i \in (17..26) \cup (34..59) \cup (66..91)}

(* Lexicographic order of ASCII strings.                                    *)
RECURSIVE StrLt(_, _)
StrLt(a, b) ==
  IF b = "" THEN FALSE
  ELSE IF a = "" THEN TRUE
  ELSE IF Ch(a, 1) = Ch(b, 1) THEN StrLt(Drop(a, 1), Drop(b, 1))
  ELSE Code(Ch(a, 1)) < Code(Ch(b, 1))
SortedStrs(S) == SetToSortSeq(S, StrLt)
=============================================================================
