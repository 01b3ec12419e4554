------------------------------ MODULE Packing ------------------------------
(* Bits, bytes and field elements of a field that holds cap bits.           *)
EXTENDS Integers, Sequences
(* Number of field elements for n bits. *)
Limbs(n, cap) == (n + cap - 1) \div cap
(* The j-th element, as its bits (least significant first). *)
Limb(bits, cap, j) == SubSeq(bits, (j - 1) * cap + 1, IF j * cap > Len(bits) THEN Len(bits) ELSE j * cap)
(* The same number written with w bits. *)
Wide(bits, w) == [i \in 1..w |-> IF i <= Len(bits) THEN bits[i] ELSE 0]
(* xs are the packed elements of the bits, each written with w bits. *)
Packed(bits, cap, w, xs) ==
  /\ Len(xs) = Limbs(Len(bits), cap)
  /\ \A j \in DOMAIN xs : xs[j] = Wide(Limb(bits, cap, j), w)
(* The bits of bytes, most or least significant bit of each byte first. *)
BitOf(v, i) == (v \div (2 ^ i)) % 2
BytesBE(bs) == [k \in 1..(8 * Len(bs)) |-> BitOf(bs[((k - 1) \div 8) + 1], 7 - ((k - 1) % 8))]
BytesLE(bs) == [k \in 1..(8 * Len(bs)) |-> BitOf(bs[((k - 1) \div 8) + 1], (k - 1) % 8)]
=============================================================================
