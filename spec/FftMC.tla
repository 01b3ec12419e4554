------------------------------- MODULE FftMC -------------------------------
(* Design check: the butterfly network and the split into 2^c sub-transforms  *)
(* compute the discrete Fourier transform as it is defined. Everything is     *)
(* linear, so checking all unit vectors (and the sum of two) is complete.     *)
EXTENDS Domain
CONSTANTS P, G, MaxE
VARIABLES e, c, j, stage, m, a
vars == <<e, c, j, stage, m, a>>
Unit(n, k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
N == 2 ^ e
W == RootOf(P, G, e)
X == Unit(N, j)

RECURSIVE BitRev(_, _)
BitRev(k, bits) == IF bits = 0 THEN 0 ELSE (k % 2) * 2 ^ (bits - 1) + BitRev(k \div 2, bits - 1)
(* One stage: blocks of 2m, twiddles w^(n/2m). *)
Butterfly(v, mm, w) ==
  LET n == Len(v)
      wm == FPow(P, w, n \div (2 * mm))
  IN [i \in 1..n |-> LET k == i - 1
                         r == k % (2 * mm)
                     IN IF r < mm THEN (v[i] + FPow(P, wm, r) * v[i + mm]) % P
                                  ELSE (v[i - mm] - FPow(P, wm, r - mm) * v[i]) % P]
RECURSIVE Serial(_, _, _)
Serial(v, mm, w) == IF mm >= Len(v) THEN v ELSE Serial(TLCEval(Butterfly(v, mm, w)), 2 * mm, w)
SerialFft(v, w) == LET b == Log2Ceil(Len(v)) IN Serial(TLCEval([i \in 1..Len(v) |-> v[BitRev(i - 1, b) + 1]]), 1, w)

(* The parallel algorithm: residue class q of the output is a sub-transform.  *)
Part(v, w, cc, q) ==
  LET n == Len(v)
      k == 2 ^ cc
      h == n \div k
  IN SerialFft(TLCEval([i \in 1..h |-> FSum(P, [s \in 1..k |-> (v[(i - 1) + (s - 1) * h + 1]
                           * FPow(P, w, (q * ((i - 1) + (s - 1) * h)) % (P - 1))) % P])]), FPow(P, w, k))
ParallelFft(v, w, cc) ==
  LET k == 2 ^ cc IN
  LET parts == TLCEval([q \in 0..(k - 1) |-> Part(v, w, cc, q)])
  IN [i \in 1..Len(v) |-> parts[(i - 1) % k][(i - 1) \div k + 1]]

(* A state machine over the stages of the network. *)
Init == /\ e \in 0..MaxE /\ c \in 0..MaxE /\ c <= e /\ j \in 1..(2 ^ MaxE) /\ j <= 2 ^ e
        /\ stage = 0 /\ m = 1 /\ a = [i \in 1..2 ^ e |-> X[BitRev(i - 1, e) + 1]]
Step == /\ stage < e /\ stage' = stage + 1 /\ m' = 2 * m /\ a' = TLCEval(Butterfly(a, m, W))
        /\ UNCHANGED <<e, c, j>>
Spec == Init /\ [][Step]_vars
SerialRight == stage = e => a = NaiveDft(P, X, W) /\ a = SerialFft(X, W)
HalvingRight == stage = 0 => Dft(P, X, W) = NaiveDft(P, X, W)
ParallelRight == stage = 0 => ParallelFft(X, W, c) = NaiveDft(P, X, W)
InverseRight == stage = 0 => /\ Ifft(P, G, Fft(P, G, X)) = X
                             /\ IcosetFft(P, G, CosetFft(P, G, X)) = X
CosetRight == stage = 0 => CosetFft(P, G, X) = [i \in 1..N |-> FPoly(P, X, FMul(P, G, FPow(P, W, i - 1)))]
RootRight == IsPrimitiveRoot(P, W, e)
ZRight == stage = 0 => /\ \A i \in 1..N : Z(P, N, FPow(P, W, i - 1)) = 0
                       /\ \A i \in 1..N : Z(P, N, FMul(P, G, FPow(P, W, i - 1))) = Z(P, N, G)
                       /\ Z(P, N, G) # 0
=============================================================================
