------------------------------ MODULE BatchMC ------------------------------
(* The soundness argument of batch verification, exhaustively for small        *)
(* fields: with e[i] the error of item i (zero iff the item verifies), the     *)
(* batch is accepted iff the random combination of the errors vanishes. The    *)
(* coefficients are either independent non-zero elements or, per chunk, the    *)
(* powers of one. For every vector of errors TLC counts the coin tosses that   *)
(* accept it.                                                                  *)
EXTENDS Field, TLC, FiniteSets
CONSTANTS Primes, MaxN, ChunkLen
VARIABLES q, e
Init == q \in Primes /\ e = <<>>
Next == Len(e) < MaxN /\ \E x \in 0..(q - 1) : e' = Append(e, x) /\ UNCHANGED q
Spec == Init /\ [][Next]_<<q, e>>
N == Len(e)
Bad == {i \in 1..N : e[i] # 0}
Unit == 1..(q - 1)
Indep == [1..N -> Unit]
Chunks == (N + ChunkLen - 1) \div ChunkLen
Power == [1..Chunks -> Unit]
CoefP(z, i) == FPow(q, z[(i - 1) \div ChunkLen + 1], ((i - 1) % ChunkLen) + 1)
AccI == TLCEval(Cardinality({z \in Indep : FDot(q, z, e) = 0}))
AccP == TLCEval(Cardinality({z \in Power : FDot(q, [i \in 1..N |-> CoefP(z, i)], e) = 0}))
Pow(b, n) == b ^ n
CompleteI == Bad = {} => AccI = Pow(q - 1, N)
CompleteP == Bad = {} => AccP = Pow(q - 1, Chunks)
OneBad == Cardinality(Bad) = 1 => AccI = 0 /\ AccP = 0
(* Probability at most 1/(p-1), or ChunkLen/(p-1) with powers. *)
SoundI == Bad # {} => AccI <= Pow(q - 1, N - 1)
SoundP == Bad # {} => AccP * (q - 1) <= (IF Chunks = 1 THEN ChunkLen - 1 ELSE ChunkLen) * Pow(q - 1, Chunks)
=============================================================================
