------------------------------ MODULE Multiexp ------------------------------
(* Multi-exponentiation: exponents are little-endian byte strings, bases are  *)
(* elements of Z_q. The density map selects exponents; the k-th selected one  *)
(* goes with the base at start + k.                                           *)
EXTENDS Field, TLC, FiniteSets

RECURSIVE BytesModR(_, _, _, _)
BytesModR(q, b, i, acc) == IF i = 0 THEN acc ELSE BytesModR(q, b, i - 1, (acc * 256 + b[i]) % q)
BytesMod(q, b) == BytesModR(q, b, Len(b), 0)
IsZero(b) == \A i \in DOMAIN b : b[i] = 0

(* Indices of the selected exponents, in order. *)
Picked(dens, n) == SelectSeq([i \in 1..n |-> i], LAMBDA i : dens[i])
Selected(full, dens, n) == IF full THEN [i \in 1..n |-> i] ELSE Picked(dens, n)

(* Halves are summed apart, so that long sums do not nest deeply. *)
RECURSIVE SumR(_, _, _, _, _, _, _)
SumR(q, bases, start, exps, sel, lo, hi) ==
  IF lo > hi THEN 0
  ELSE IF lo = hi THEN (bases[start + lo] * BytesMod(q, exps[sel[lo]])) % q
  ELSE LET m == (lo + hi) \div 2
       IN (SumR(q, bases, start, exps, sel, lo, m) + SumR(q, bases, start, exps, sel, m + 1, hi)) % q
Value(q, bases, start, exps, sel) == SumR(q, bases, start, exps, sel, 1, Len(sel))

(* The errors that apply; ok only if there are none. *)
Short(bases, start, sel) == Len(sel) > 0 /\ start + Len(sel) > Len(bases)
Ident(bases, start, exps, sel) ==
  \E k \in DOMAIN sel : start + k <= Len(bases) /\ bases[start + k] = 0 /\ ~IsZero(exps[sel[k]])
Errors(bases, start, exps, sel) ==
  (IF Short(bases, start, sel) THEN {"IoEof"} ELSE {})
  \cup (IF Ident(bases, start, exps, sel) THEN {"UnexpectedIdentity"} ELSE {})
=============================================================================
