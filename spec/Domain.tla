------------------------------- MODULE Domain -------------------------------
(* Polynomials over an evaluation domain: the vector of n = 2^e coefficients  *)
(* or values, and the operations on it. Group elements are their discrete     *)
(* logarithms, so that vectors of points obey the same equations.             *)
EXTENDS Field, TLC

(* ---- creation: zero padding to a power of two, and the field's limit ---- *)
MaxExp(p) == TwoAdicity(p - 1) - 1
TooLarge(p, n) == Log2Ceil(n) > MaxExp(p)
Pad(v) == TLCEval([i \in 1..2 ^ Log2Ceil(Len(v)) |-> IF i <= Len(v) THEN v[i] ELSE 0])
ExpOf(v) == Log2Ceil(Len(v))

(* ---- the transform: by definition, and by halving ---- *)
NaiveDft(p, v, w) == [i \in 1..Len(v) |-> FPoly(p, v, FPow(p, w, i - 1))]
RECURSIVE Dft(_, _, _)
Dft(p, v, w) ==
  IF Len(v) = 1 THEN v
  ELSE LET h == Len(v) \div 2
           w2 == (w * w) % p
           e == Dft(p, TLCEval([i \in 1..h |-> v[2 * i - 1]]), w2)
           o == Dft(p, TLCEval([i \in 1..h |-> v[2 * i]]), w2)
           ws == FPowers(p, w, h)
       IN TLCEval([i \in 1..2 * h |->
                     IF i <= h THEN (e[i] + ws[i] * o[i]) % p
                               ELSE (e[i - h] - ws[i - h] * o[i - h]) % p])
Omega(p, g, v) == RootOf(p, g, ExpOf(v))
Scale(p, v, c) == TLCEval([i \in DOMAIN v |-> (v[i] * c) % p])
Dist(p, v, c) == LET ws == FPowers(p, c, Len(v)) IN TLCEval([i \in DOMAIN v |-> (v[i] * ws[i]) % p])

Fft(p, g, v) == Dft(p, v, Omega(p, g, v))
Ifft(p, g, v) == Scale(p, Dft(p, v, FInv(p, Omega(p, g, v))), FInv(p, Len(v) % p))
CosetFft(p, g, v) == Fft(p, g, Dist(p, v, g))
IcosetFft(p, g, v) == Dist(p, Ifft(p, g, v), FInv(p, g))
Z(p, n, x) == FSub(p, FPow(p, x, n), 1)
DivZ(p, g, v) == Scale(p, v, FInv(p, Z(p, Len(v), g)))
Mul(p, v, y) == TLCEval([i \in DOMAIN v |-> (v[i] * y[i]) % p])
Sub(p, v, y) == TLCEval([i \in DOMAIN v |-> (v[i] - y[i]) % p])

Apply(p, g, v, o) ==
  CASE o.op = "fft" -> Fft(p, g, v)
    [] o.op = "ifft" -> Ifft(p, g, v)
    [] o.op = "coset_fft" -> CosetFft(p, g, v)
    [] o.op = "icoset_fft" -> IcosetFft(p, g, v)
    [] o.op = "dist" -> Dist(p, v, o.c)
    [] o.op = "div" -> DivZ(p, g, v)
    [] o.op = "mul" -> Mul(p, v, Pad(o.y))
    [] o.op = "sub" -> Sub(p, v, Pad(o.y))
    [] o.op = "set" -> [v EXCEPT ![o.i + 1] = o.c]
=============================================================================
