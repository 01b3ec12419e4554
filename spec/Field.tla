------------------------------- MODULE Field -------------------------------
(* Arithmetic in the prime field F_p, p < 46341 so that products fit TLC's  *)
(* 32-bit integers. Elements are the integers 0..p-1.                       *)
EXTENDS Integers, Sequences

FAdd(p, a, b) == (a + b) % p
FSub(p, a, b) == (a - b) % p
FMul(p, a, b) == (a * b) % p
FNeg(p, a) == (p - a) % p

RECURSIVE FPow(_, _, _)
FPow(p, a, e) == IF e = 0 THEN 1 % p
                 ELSE LET h == FPow(p, a, e \div 2)
                          q == (h * h) % p
                      IN IF e % 2 = 0 THEN q ELSE (q * a) % p
FInv(p, a) == FPow(p, a, p - 2)
FDiv(p, a, b) == FMul(p, a, FInv(p, b))

(* Sum of a sequence of field elements. *)
RECURSIVE FSumR(_, _, _, _)
FSumR(p, s, i, acc) == IF i > Len(s) THEN acc ELSE FSumR(p, s, i + 1, (acc + s[i]) % p)
FSum(p, s) == FSumR(p, s, 1, 0)

(* Inner product of two sequences (the shorter one decides). *)
RECURSIVE FDotR(_, _, _, _, _)
FDotR(p, s, u, i, acc) == IF i > Len(s) \/ i > Len(u) THEN acc
                          ELSE FDotR(p, s, u, i + 1, (acc + s[i] * u[i]) % p)
FDot(p, s, u) == FDotR(p, s, u, 1, 0)

(* Value at x of the polynomial with coefficients s (s[1] is the constant). *)
RECURSIVE FHorner(_, _, _, _, _)
FHorner(p, s, x, i, acc) == IF i = 0 THEN acc ELSE FHorner(p, s, x, i - 1, (acc * x + s[i]) % p)
FPoly(p, s, x) == FHorner(p, s, x, Len(s), 0)

(* <<1, x, x^2, ..., x^(n-1)>> *)
RECURSIVE FPowersR(_, _, _, _, _)
FPowersR(p, x, n, cur, acc) == IF n = 0 THEN acc ELSE FPowersR(p, x, n - 1, (cur * x) % p, Append(acc, cur))
FPowers(p, x, n) == FPowersR(p, x, n, 1 % p, <<>>)

(* The 2-adicity S of p - 1, and the canonical 2^S-th root of unity that the *)
(* code derives from the field's multiplicative generator g.                 *)
RECURSIVE TwoAdicity(_)
TwoAdicity(n) == IF n % 2 = 1 THEN 0 ELSE 1 + TwoAdicity(n \div 2)
RECURSIVE Log2Ceil(_)
Log2Ceil(n) == IF n <= 1 THEN 0 ELSE 1 + Log2Ceil((n + 1) \div 2)
RootOf(p, g, e) == FPow(p, g, (p - 1) \div (2 ^ e))     \* a 2^e-th root of unity

(* A primitive 2^e-th root: order exactly 2^e. *)
IsPrimitiveRoot(p, w, e) == /\ FPow(p, w, 2 ^ e) = 1 % p
                            /\ e > 0 => FPow(p, w, 2 ^ (e - 1)) = p - 1
=============================================================================
