------------------------------ MODULE Groth16 ------------------------------
(* The Groth16 proving system over rank-1 constraint systems, as the library *)
(* promises it, over a field F_p in which every group element is written as  *)
(* its discrete logarithm (G1, G2 and the target group are all F_p, and the  *)
(* pairing is multiplication). The real generic Rust code is instantiated on *)
(* exactly this algebra, so the two compute the same numbers.                *)
(*                                                                           *)
(* A circuit is [nin, naux, cons]: nin counts the public inputs, including   *)
(* the constant ONE (index 0); a constraint is [a, b, c], each a sequence of *)
(* terms <<aux, idx, coeff>> with aux 0 for an input and 1 for an auxiliary  *)
(* variable, and 0-based idx. An assignment is <<inp, aux>>.                 *)
EXTENDS Field, TLC

(* ------------------------------ the R1CS ------------------------------ *)
RECURSIVE LcR(_, _, _, _, _, _)
LcR(p, lc, inp, aux, i, acc) ==
  IF i > Len(lc) THEN acc
  ELSE LET t == lc[i]
           v == IF t[1] = 1 THEN aux[t[2] + 1] ELSE inp[t[2] + 1]
       IN LcR(p, lc, inp, aux, i + 1, (acc + v * t[3]) % p)
LcValue(p, lc, inp, aux) == LcR(p, lc, inp, aux, 1, 0)

ConsHolds(p, k, inp, aux) ==
  FMul(p, LcValue(p, k.a, inp, aux), LcValue(p, k.b, inp, aux)) = LcValue(p, k.c, inp, aux)
Satisfied(p, c, inp, aux) == \A i \in DOMAIN c.cons : ConsHolds(p, c.cons[i], inp, aux)

(* ------------------------------ the QAP ------------------------------- *)
(* x * 0 = 0 for every input, so that the input polynomials are independent. *)
InputCons(c) == [i \in 1..c.nin |-> [a |-> << <<0, i - 1, 1>> >>, b |-> <<>>, c |-> <<>>]]
AllCons(c) == c.cons \o InputCons(c)
DomLog(c) == Log2Ceil(Len(AllCons(c)))
DomSize(c) == 2 ^ DomLog(c)
FitsField(p, c) == DomLog(c) < TwoAdicity(p - 1)

(* Coefficient of a variable in a linear combination: the sum of its terms. *)
RECURSIVE CoefR(_, _, _, _, _, _)
CoefR(p, lc, x, idx, i, acc) ==
  IF i > Len(lc) THEN acc
  ELSE CoefR(p, lc, x, idx, i + 1,
             IF lc[i][1] = x /\ lc[i][2] = idx THEN (acc + lc[i][3]) % p ELSE acc)
Coef(p, lc, x, idx) == CoefR(p, lc, x, idx, 1, 0)

(* L_j(tau) for the domain of the m-th roots of unity, as a sequence:        *)
(* w^j (tau^m - 1) / (m (tau - w^j)), or a unit vector if tau is a root.      *)
Lagrange(p, g, e, tau) ==
  LET m == 2 ^ e
      w == FPowers(p, RootOf(p, g, e), m)
      k == FMul(p, FSub(p, FPow(p, tau, m), 1), FInv(p, m % p))
  IN [j \in 1..m |-> IF tau = w[j] THEN 1
                      ELSE FMul(p, FMul(p, k, w[j]), FInv(p, FSub(p, tau, w[j])))]

(* The values at tau of all variables' polynomials on one side of the QAP:   *)
(* the terms of row j contribute their coefficient times L_j(tau).           *)
RECURSIVE RowR(_, _, _, _, _, _)
RowR(p, n, lc, lj, i, acc) ==
  IF i > Len(lc) THEN acc
  ELSE LET t == lc[i]
           x == IF t[1] = 1 THEN n + t[2] + 1 ELSE t[2] + 1
       IN RowR(p, n, lc, lj, i + 1, [acc EXCEPT ![x] = (@ + t[3] * lj) % p])
RECURSIVE QapR(_, _, _, _, _, _)
QapR(p, n, lcs, lag, j, acc) ==
  IF j > Len(lcs) THEN acc ELSE QapR(p, n, lcs, lag, j + 1, RowR(p, n, lcs[j], lag[j], 1, acc))
QapSide(p, c, lcs, lag) == QapR(p, c.nin, lcs, lag, 1, TLCEval([i \in 1..(c.nin + c.naux) |-> 0]))
PolyIsZero(p, lcs, x, idx) == \A j \in DOMAIN lcs : Coef(p, lcs[j], x, idx) = 0

Vars(c) == [i \in 1..(c.nin + c.naux) |-> IF i <= c.nin THEN <<0, i - 1>> ELSE <<1, i - 1 - c.nin>>]
As(c) == LET k == AllCons(c) IN [j \in DOMAIN k |-> k[j].a]
Bs(c) == LET k == AllCons(c) IN [j \in DOMAIN k |-> k[j].b]
Cs(c) == LET k == AllCons(c) IN [j \in DOMAIN k |-> k[j].c]

(* u, v, w: for all variables (inputs first) the values at tau. *)
Qap(p, g, c, tau) ==
  LET lag == TLCEval(Lagrange(p, g, DomLog(c), tau))
  IN [u |-> QapSide(p, c, As(c), lag),
      v |-> QapSide(p, c, Bs(c), lag),
      w |-> QapSide(p, c, Cs(c), lag),
      t |-> FSub(p, FPow(p, tau, DomSize(c)), 1)]

(* ------------------- the common reference string ---------------------- *)
(* tox = [g1, g2, alpha, beta, gamma, delta, tau]. *)
NonZero(s) == SelectSeq(s, LAMBDA x : x # 0)
Ext(p, q, tox, i) == (FMul(p, tox.beta, q.u[i]) + FMul(p, tox.alpha, q.v[i]) + q.w[i]) % p

Crs(p, g, c, tox) ==
  LET q == Qap(p, g, c, tox.tau)
      n == c.nin
      gi == FInv(p, tox.gamma)
      di == FInv(p, tox.delta)
      pow == FPowers(p, tox.tau, DomSize(c) - 1)
      td == FMul(p, FMul(p, q.t, di), tox.g1)
  IN [alpha_g1 |-> FMul(p, tox.g1, tox.alpha),
      beta_g1  |-> FMul(p, tox.g1, tox.beta),
      beta_g2  |-> FMul(p, tox.g2, tox.beta),
      gamma_g2 |-> FMul(p, tox.g2, tox.gamma),
      delta_g1 |-> FMul(p, tox.g1, tox.delta),
      delta_g2 |-> FMul(p, tox.g2, tox.delta),
      ic |-> [i \in 1..n |-> FMul(p, tox.g1, FMul(p, gi, Ext(p, q, tox, i)))],
      h  |-> [i \in DOMAIN pow |-> FMul(p, td, pow[i])],
      l  |-> [i \in 1..c.naux |-> FMul(p, tox.g1, FMul(p, di, Ext(p, q, tox, n + i)))],
      a  |-> NonZero([i \in DOMAIN q.u |-> FMul(p, tox.g1, q.u[i])]),
      b_g1 |-> NonZero([i \in DOMAIN q.v |-> FMul(p, tox.g1, q.v[i])]),
      b_g2 |-> NonZero([i \in DOMAIN q.v |-> FMul(p, tox.g2, q.v[i])])]

(* The errors that apply; any one of them may be reported. *)
GenErrors(p, g, c, tox) ==
  IF ~FitsField(p, c) THEN {"PolynomialDegreeTooLarge"} \cup
       (IF tox.gamma = 0 \/ tox.delta = 0 THEN {"UnexpectedIdentity"} ELSE {})
  ELSE IF tox.gamma = 0 \/ tox.delta = 0 THEN {"UnexpectedIdentity"}
  ELSE LET q == Qap(p, g, c, tox.tau)
       IN IF \E i \in 1..c.naux : Ext(p, q, tox, c.nin + i) = 0 THEN {"UnconstrainedVariable"} ELSE {}

(* Toxic waste that hits, by accident, a root of one of the polynomials (an  *)
(* event of probability about m/p that a real 255-bit field never sees).     *)
Accident(p, g, c, tox) ==
  LET q == Qap(p, g, c, tox.tau)
      as == As(c)
      bs == Bs(c)
      vs == Vars(c)
  IN \/ q.t = 0
     \/ tox.alpha = 0 \/ tox.beta = 0 \/ tox.tau = 0
     \/ \E i \in DOMAIN vs : \/ q.u[i] = 0 /\ ~PolyIsZero(p, as, vs[i][1], vs[i][2])
                             \/ q.v[i] = 0 /\ ~PolyIsZero(p, bs, vs[i][1], vs[i][2])
     \/ \E i \in 1..c.nin : Ext(p, q, tox, i) = 0

(* A variable that no constraint mentions (after combining terms). *)
Unmentioned(p, c, x, idx) ==
  \A j \in DOMAIN c.cons : /\ Coef(p, c.cons[j].a, x, idx) = 0
                           /\ Coef(p, c.cons[j].b, x, idx) = 0
                           /\ Coef(p, c.cons[j].c, x, idx) = 0

(* ---------------------------- the prover ------------------------------ *)
(* The unique proof for a satisfying assignment and randomness r, s. *)
Prove(p, g, c, tox, inp, aux, r, s) ==
  LET q == Qap(p, g, c, tox.tau)
      n == c.nin
      z == inp \o aux
      az == FDot(p, z, q.u)
      bz == FDot(p, z, q.v)
      cz == FDot(p, z, q.w)
      ext == FDot(p, aux, [i \in 1..c.naux |-> Ext(p, q, tox, n + i)])
      ht == FSub(p, FMul(p, az, bz), cz)
      A == (tox.alpha + az + FMul(p, r, tox.delta)) % p
      B == (tox.beta + bz + FMul(p, s, tox.delta)) % p
      C == (FMul(p, (ext + ht) % p, FInv(p, tox.delta)) + FMul(p, s, A) + FMul(p, r, B)
             + FNeg(p, FMul(p, FMul(p, r, s), tox.delta))) % p
  IN [a |-> FMul(p, tox.g1, A), b |-> FMul(p, tox.g2, B), c |-> FMul(p, tox.g1, C)]

(* How many elements of each query the prover asks its parameter source for. *)
Count(p, c, lcs, x) ==
  LET n == IF x = 0 THEN c.nin ELSE c.naux
  IN Len(SelectSeq([i \in 1..n |-> i - 1], LAMBDA idx : ~PolyIsZero(p, lcs, x, idx)))
Requests(p, c) == [vk |-> c.nin, h |-> DomSize(c) - 1, l |-> c.naux,
                   a |-> <<c.nin, Count(p, c, As(c), 1)>>,
                   b |-> <<Count(p, c, Bs(c), 0), Count(p, c, Bs(c), 1)>>]

(* --------------------------- the verifier ----------------------------- *)
(* vk as published; pub are the public inputs without ONE. *)
PairingHolds(p, vk, pf, pub) ==
  LET x == FDot(p, <<1>> \o pub, vk.ic)
  IN FMul(p, pf.a, pf.b) =
       (FMul(p, vk.alpha_g1, vk.beta_g2) + FMul(p, x, vk.gamma_g2) + FMul(p, pf.c, vk.delta_g2)) % p
Verify(p, vk, pf, pub) ==
  IF Len(pub) + 1 # Len(vk.ic) THEN "InvalidVerifyingKey"
  ELSE IF PairingHolds(p, vk, pf, pub) THEN "ok" ELSE "InvalidProof"
=============================================================================
