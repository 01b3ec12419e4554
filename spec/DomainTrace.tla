---------------------------- MODULE DomainTrace ----------------------------
(* Recorded operations of the real evaluation domains, checked one by one.    *)
EXTENDS Domain, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
Init == t \in DOMAIN Cases /\ l = 0
Next == l < Len(Cases[t].ev) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
K == Cases[t]
E == K.ev[l]
p == K.p
g == K.g
Is(x) == l > 0 /\ E.op = x
Before == K.ev[l - 1].out
Transforms == {"fft", "ifft", "coset_fft", "icoset_fft"}
Operations == {"dist", "div", "mul", "sub", "set"}

TransformsRight ==
  \/ l = 0
  \/ E.op \notin Transforms
  \/ E.out = Apply(p, g, Before, E)
OperationsRight ==
  \/ l = 0
  \/ /\ E.op = "new"
     /\ E.res = (IF TooLarge(p, Len(E.v)) THEN "PolynomialDegreeTooLarge" ELSE "ok")
     /\ (E.res = "ok" => E.out = Pad(E.v))
  \/ E.op \in Operations /\ E.out = Apply(p, g, Before, E)
  \/ E.op = "z" /\ E.out = Z(p, E.n, E.c)
  \/ E.op \in Transforms \cup {"quot", "len"}
(* Domain sizes without the vectors, up to the field's limit. *)
LimitsRight ==
  Is("len") => IF TooLarge(p, E.n) THEN E.res = "PolynomialDegreeTooLarge"
               ELSE E.res = "ok" /\ E.m = 2 ^ Log2Ceil(E.n) /\ E.zeros
(* The quotient as the prover computes it: a, b, c are values on the domain   *)
(* with a * b = c there; h is the exact quotient of the polynomials.          *)
QuotientRight ==
  Is("quot") =>
    LET A == Ifft(p, g, E.a)
        B == Ifft(p, g, E.b)
        C == Ifft(p, g, Mul(p, E.a, E.b))
    IN /\ Len(E.h) = Len(E.a)
       /\ E.h[Len(E.h)] = 0
       /\ \A x \in 2..(2 + IF Len(E.a) <= 32 THEN 2 * Len(E.a) ELSE 12) :
            FSub(p, FMul(p, FPoly(p, A, x), FPoly(p, B, x)), FPoly(p, C, x))
              = FMul(p, FPoly(p, E.h, x), Z(p, Len(E.a), x))
=============================================================================
