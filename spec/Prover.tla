------------------------------- MODULE Prover -------------------------------
(* Proof creation as a total function of whatever a parameter source gives:   *)
(* the key's elements need not belong to the circuit, may be too few, may be  *)
(* identities, and each query or each of its elements may fail. A key is      *)
(* [alpha_g1, beta_g1, beta_g2, delta_g1, delta_g2, h, l, a, b_g1, b_g2].     *)
EXTENDS Groth16, Integers, FiniteSets

(* The coefficients of the polynomial with values v at the roots of unity. *)
RECURSIVE DftAt(_, _, _, _, _, _)
DftAt(p, v, w, i, cur, acc) ==
  IF i > Len(v) THEN acc ELSE DftAt(p, v, w, i + 1, (cur * w) % p, (acc + v[i] * cur) % p)
Interpolate(p, g, e, v) ==
  LET m == 2 ^ e
      wi == FInv(p, RootOf(p, g, e))
      mi == FInv(p, m % p)
  IN TLCEval([k \in 1..m |-> FMul(p, mi, DftAt(p, v, FPow(p, wi, k - 1), 1, 1, 0))])
RECURSIVE ConvR(_, _, _, _, _, _)
ConvR(p, a, b, k, i, acc) ==
  IF i > Len(a) \/ i > k THEN acc
  ELSE ConvR(p, a, b, k, i + 1, IF k - i + 1 <= Len(b) THEN (acc + a[i] * b[k - i + 1]) % p ELSE acc)
(* Coefficient k (from 1) of the product. *)
Conv(p, a, b, k) == ConvR(p, a, b, k, 1, 0)

Pad(v, m) == [i \in 1..m |-> IF i <= Len(v) THEN v[i] ELSE 0]
(* The m - 1 exponents of the H query. With AB - C = Q (X^m - 1) + R, the     *)
(* values of (AB - C)/Z on the coset of the generator interpolate to          *)
(* Q + R / (g^m - 1); R is zero for satisfying assignments.                   *)
HCoeffs(p, g, c, inp, aux) ==
  LET e == DomLog(c)
      m == 2 ^ e
      k == AllCons(c)
      val(f) == TLCEval(Pad([j \in DOMAIN k |-> LcValue(p, f[j], inp, aux)], m))
      a == Interpolate(p, g, e, val([j \in DOMAIN k |-> k[j].a]))
      b == Interpolate(p, g, e, val([j \in DOMAIN k |-> k[j].b]))
      cc == Interpolate(p, g, e, val([j \in DOMAIN k |-> k[j].c]))
      pr == TLCEval([i \in 1..(2 * m) |-> Conv(p, a, b, i)])
      zi == FInv(p, FSub(p, FPow(p, g, m), 1))
  IN TLCEval([i \in 1..(m - 1) |->
       (pr[i + m] + FMul(p, zi, (pr[i] + pr[i + m] + p - cc[i]) % p)) % p])

(* Which variables the A and B queries contain. *)
Occurs(p, lcs, x, n) == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~PolyIsZero(p, lcs, x, i - 1))
Pick(v, idx) == [k \in DOMAIN idx |-> v[idx[k]]]

(* One multiexponentiation: elements of src from position `at`, exponents xs, *)
(* and the element at which the source itself fails (-1: none).               *)
MxErrors(src, at, xs, fail) ==
  (IF Len(xs) > 0 /\ at + Len(xs) > Len(src) THEN {"IoEof"} ELSE {})
  \cup (IF \E k \in DOMAIN xs : at + k <= Len(src) /\ src[at + k] = 0 /\ xs[k] # 0
        THEN {"UnexpectedIdentity"} ELSE {})
  \cup (IF fail >= 0 /\ fail < Len(xs) THEN {"IoOther"} ELSE {})
RECURSIVE MxR(_, _, _, _, _, _)
MxR(p, src, at, xs, k, acc) ==
  IF k > Len(xs) THEN acc ELSE MxR(p, src, at, xs, k + 1, (acc + src[at + k] * xs[k]) % p)
Mx(p, src, at, xs) == MxR(p, src, at, xs, 1, 0)

(* The eight sums of the prover, by the stream of elements they consume.      *)
Streams(p, g, c, key, inp, aux) ==
  LET oba == Occurs(p, Bs(c), 1, c.naux)
      obi == Occurs(p, Bs(c), 0, c.nin)
      oaa == Occurs(p, As(c), 1, c.naux)
  IN << [src |-> key.h, at |-> 0, xs |-> HCoeffs(p, g, c, inp, aux)],
        [src |-> key.l, at |-> 0, xs |-> aux],
        [src |-> key.a, at |-> 0, xs |-> inp],
        [src |-> key.a, at |-> c.nin, xs |-> Pick(aux, oaa)],
        [src |-> key.b_g1, at |-> 0, xs |-> Pick(inp, obi)],
        [src |-> key.b_g1, at |-> Len(obi), xs |-> Pick(aux, oba)],
        [src |-> key.b_g2, at |-> 0, xs |-> Pick(inp, obi)],
        [src |-> key.b_g2, at |-> Len(obi), xs |-> Pick(aux, oba)] >>

(* qerr: the errors of whole queries; sfail: per stream the failing element.  *)
ProveErrors(key, st, qerr, sfail) ==
  qerr
  \cup (IF key.delta_g1 = 0 \/ key.delta_g2 = 0 THEN {"UnexpectedIdentity"} ELSE {})
  \cup UNION {MxErrors(st[i].src, st[i].at, st[i].xs, sfail[i]) : i \in 1..8}
ProveWith(p, key, st, r, s) ==
  LET v == TLCEval([i \in 1..8 |-> Mx(p, st[i].src, st[i].at, st[i].xs)])
      A == (key.alpha_g1 + FMul(p, r, key.delta_g1) + v[3] + v[4]) % p
      B == (key.beta_g2 + FMul(p, s, key.delta_g2) + v[7] + v[8]) % p
      C == (v[1] + v[2] + FMul(p, s, (v[3] + v[4]) % p) + FMul(p, r, (v[5] + v[6]) % p)
             + FMul(p, FMul(p, r, s), key.delta_g1) + FMul(p, s, key.alpha_g1) + FMul(p, r, key.beta_g1)) % p
  IN [a |-> A, b |-> B, c |-> C]
=============================================================================
