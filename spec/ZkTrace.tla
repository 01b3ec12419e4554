------------------------------ MODULE ZkTrace ------------------------------
(* Perfect zero-knowledge, observed on the real prover: over a small field    *)
(* every (r, s) is tried for two different witnesses of one statement. The    *)
(* proofs must be the same set for both, one for every possible pair (A, B)   *)
(* -- so a proof is uniform over all valid proofs and carries nothing else.   *)
EXTENDS Groth16, TLC, Json, IOUtils, FiniteSets
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Init == t \in DOMAIN Cases /\ l = 0
Next == l < 1 /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, l>>
ToSet(s) == {s[i] : i \in DOMAIN s}
Perfect(k) ==
  LET a == ToSet(k.w1)
      b == ToSet(k.w2)
      c == ToSet(k.rnd)
  IN /\ a = b
     /\ Cardinality(a) = k.p * k.p
     /\ Cardinality({<<x[1], x[2]>> : x \in a}) = k.p * k.p
     /\ c = a                       \* create_random_proof draws both r and s afresh
PerfectZeroKnowledge == (l = 1 /\ Cases[t].ok) => Perfect(Cases[t])
=============================================================================
