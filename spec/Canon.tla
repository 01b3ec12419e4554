------------------------------- MODULE Canon -------------------------------
(* Strings of bits (least significant first) as representations of elements  *)
(* of a field of any size. m is r - 1; the strings are as long as it.        *)
EXTENDS Integers, Sequences
IsBits(b) == \A i \in DOMAIN b : b[i] \in {0, 1}
(* a =< b as numbers: at the last place where they differ, b has the one. *)
Differ(a, b) == {i \in DOMAIN a : a[i] # b[i]}
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
AtMost(a, b) == LET d == Differ(a, b) IN d = {} \/ b[Last(d)] = 1
(* The modulus r = m + 1 (m is even, or r is 2). *)
Modulus(m) == [m EXCEPT ![1] = 1]
(* The carries of a + b, and whether the sum is s and fits. *)
RECURSIVE Sums(_, _, _, _, _)
Sums(a, b, s, i, c) ==
  IF i > Len(s) THEN c = 0
  ELSE LET d == a[i] + b[i] + c IN (d % 2) = s[i] /\ Sums(a, b, s, i + 1, d \div 2)
Sum(a, b, s) == Sums(a, b, s, 1, 0)
(* x is the canonical string of an element, b any string. *)
Canonical(m, x) == IsBits(x) /\ AtMost(x, m)
Stands(m, b, x) == b = x \/ Sum(x, Modulus(m), b)
(* What the constraints must admit. *)
Plain(m, b, x) == IsBits(b) /\ Stands(m, b, x)
Strict(m, b, x) == IsBits(b) /\ AtMost(b, m) /\ b = x
=============================================================================
