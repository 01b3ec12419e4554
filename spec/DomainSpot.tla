----------------------------- MODULE DomainSpot -----------------------------
(* Large domains, judged at sampled places: each value that a transform gives *)
(* is a polynomial's value, found by Horner's rule. p = 786433 = 3*2^18 + 1,  *)
(* products of two elements taken in two halves.                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
p == 786433
g == 10
ASSUME (p - 1) % (2 ^ 18) = 0
Mul(a, b) == ((((a * (b \div 1024)) % p) * 1024) + (a * (b % 1024))) % p
RECURSIVE Pow(_, _)
Pow(a, e) == IF e = 0 THEN 1
             ELSE LET h == Pow(a, e \div 2)
                      q == Mul(h, h)
                  IN IF e % 2 = 0 THEN q ELSE Mul(q, a)
Inv(a) == Pow(a, p - 2)
(* g generates the multiplicative group. *)
ASSUME Pow(g, (p - 1) \div 2) = p - 1 /\ Pow(g, (p - 1) \div 3) # 1

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Init == t \in DOMAIN Cases /\ l = 0
Next == l < Len(Cases[t].at) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, l>>
K == Cases[t]

(* Value at x of the polynomial given as <<exponent, coefficient>> pairs. *)
RECURSIVE PolyR(_, _, _, _)
PolyR(v, x, i, acc) == IF i > Len(v) THEN acc ELSE PolyR(v, x, i + 1, (acc + Mul(v[i][2], Pow(x, v[i][1]))) % p)
Poly(v, x) == PolyR(v, x, 1, 0)

m == K.m
RECURSIVE Log2(_)
Log2(n) == IF n = 1 THEN 0 ELSE 1 + Log2(n \div 2)
Root(n) == Pow(g, (p - 1) \div n)
(* What the operation puts at place i (from 0) of a vector of m, made of v;   *)
(* e and y are what two vectors have at that place.                            *)
Expected(i, e, y) ==
  CASE K.op = "fft" -> Poly(K.v, Pow(Root(m), i))
    [] K.op = "ifft" -> Mul(Inv(m), Poly(K.v, Inv(Pow(Root(m), i))))
    [] K.op = "coset_fft" -> Poly(K.v, Mul(g, Pow(Root(m), i)))
    [] K.op = "icoset_fft" -> Mul(Inv(Pow(g, i)), Mul(Inv(m), Poly(K.v, Inv(Pow(Root(m), i)))))
    [] K.op = "dist" -> Mul(e, Pow(K.c, i))
    [] K.op = "div" -> Mul(e, Inv((Pow(g, m) - 1) % p))
    [] K.op = "mul" -> Mul(e, y)
    [] K.op = "sub" -> (e - y) % p
    [] K.op = "new" -> e
SizeRight == /\ m >= K.n /\ (m = 1 \/ m \div 2 < K.n) /\ 2 ^ Log2(m) = m
SpotRight == l = 0 \/ (K.res = "ok" /\ SizeRight /\ K.out[l] = Expected(K.at[l], K.es[l], K.ys[l]))
=============================================================================
