------------------------------- MODULE Bytes -------------------------------
(* Little-endian two's complement integers.  A value of up to 33 bits is a  *)
(* pair <<hi, lo>> standing for hi * 65536 + lo, with lo in 0..65535.       *)
EXTENDS Integers, Sequences, SequencesExt

Width == [u8 |-> 1, i8 |-> 1, u16 |-> 2, i16 |-> 2, u32 |-> 4, i32 |-> 4]
Signed == {"i8", "i16", "i32"}
(* Is <<hi, lo>> a value of the type?                                       *)
InType(fn, hi, lo) ==
  LET s == fn \in Signed IN
  CASE Width[fn] = 1 -> IF s THEN (hi = 0 /\ lo < 128) \/ (hi = -1 /\ lo >= 65536 - 128) ELSE hi = 0 /\ lo < 256
    [] Width[fn] = 2 -> IF s THEN (hi = 0 /\ lo < 32768) \/ (hi = -1 /\ lo >= 32768) ELSE hi = 0
    [] Width[fn] = 4 -> IF s THEN hi \in -32768..32767 ELSE hi \in 0..65535
(* The bytes of a value, lowest first.                                      *)
BytesOf(fn, hi, lo) ==
  SubSeq(<<lo % 256, (lo \div 256) % 256, hi % 256, (hi \div 256) % 256>>, 1, Width[fn])
(* The value of bytes, as a reader forms it.                                *)
ValueOf(fn, b) ==
  LET n == Width[fn]
      at(i) == IF i <= n THEN b[i] ELSE IF fn \in Signed /\ b[n] >= 128 THEN 255 ELSE 0
      hi == at(3) + 256 * at(4)
  IN <<IF fn \in Signed /\ hi >= 32768 THEN hi - 65536 ELSE hi, at(1) + 256 * at(2)>>

(***************************************************************************)
(* C20: what the writers did.  An item is <<fn, hi, lo, accepted, before,   *)
(* after>>; a text is [bytes, read]: the bytes given, and those a Go        *)
(* compiler reads back.                                                     *)
(***************************************************************************)
ItemOk(x) ==
  LET in == InType(x[1], x[2], x[3]) IN
  /\ x[4] = in
  /\ in => x[6] = x[5] \o BytesOf(x[1], x[2], x[3])
C20(k, u) ==
  {"write_" \o x[1] : x \in {k.items[i] : i \in {j \in 1..Len(k.items) : ~ItemOk(k.items[j])}}}
  \cup {"text: " \o k.texts[i].what : i \in {j \in 1..Len(k.texts) : k.texts[j].bytes # k.texts[j].read}}

(* Every value of 8 and 16 bits, and every pair of edge limbs for 32.       *)
VARIABLES fn, hi, lo
Init == fn \in DOMAIN Width /\ hi \in -1..0 /\ lo \in 0..65535
EdgeInit == /\ fn \in {"u32", "i32"}
            /\ hi \in {-32769, -32768, -32767, -257, -256, -2, -1, 0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536}
            /\ lo \in 0..65535
Next == UNCHANGED <<fn, hi, lo>>
RoundTrip == InType(fn, hi, lo) => LET b == BytesOf(fn, hi, lo) IN
  /\ Len(b) = Width[fn] /\ \A i \in 1..Len(b) : b[i] \in 0..255
  /\ ValueOf(fn, b) = <<hi, lo>>
=============================================================================
