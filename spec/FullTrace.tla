----------------------------- MODULE FullTrace -----------------------------
(* Groth16 over a 255-bit field whose group elements are their own exponents. *)
(* Secrets drawn by the code are read off the published values and must be    *)
(* elements of the whole field: never repeated, never zero, every bit of      *)
(* every one taking both values over the runs. Completeness and soundness at  *)
(* full size: honest proofs verify, wrong witnesses, and proofs or inputs off *)
(* in a single bit, do not.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Init == t \in DOMAIN Cases /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, l>>
K == Cases[t]
IsRows == "w" \in DOMAIN K
(* The order of the scalar field lies between 2^254 and 2^255. *)
Bits == 0..254
Bit(x, b) == (x[(b \div 16) + 1] \div 2 ^ (b % 16)) % 2
Zero == [i \in 1..16 |-> 0]
Distinct(s) == Cardinality({s[i] : i \in DOMAIN s}) = Len(s)
(* Each bit is as good as a fair coin: fewer than an eighth of n >= 96 tosses *)
(* on one side has a probability below 10^-14.                                *)
Fair(n, ones) == ones * 8 >= n /\ (n - ones) * 8 >= n
SecretsFresh ==
  (l = 1 /\ IsRows) =>
     LET n == Len(K.w)
     IN /\ n >= 96
        /\ \A r \in 1..n : Len(K.w[r]) = Len(K.names) /\ Zero \notin {K.w[r][i] : i \in DOMAIN K.w[r]}
        /\ Distinct([i \in 1..(n * Len(K.names)) |-> K.w[((i - 1) % n) + 1][((i - 1) \div n) + 1]])
SecretsFullWidth ==
  (l = 1 /\ IsRows) =>
     \A i \in DOMAIN K.names : \A b \in Bits :
        Fair(Len(K.w), Cardinality({r \in DOMAIN K.w : Bit(K.w[r][i], b) = 1}))
(* No bit of one secret tells the same bit of another. *)
SecretsUnrelated ==
  (l = 1 /\ IsRows) =>
     \A i \in DOMAIN K.names : \A j \in 1..(i - 1) : \A b \in Bits :
        Fair(Len(K.w), Cardinality({r \in DOMAIN K.w : Bit(K.w[r][i], b) = Bit(K.w[r][j], b)}))
AllExplained == (l = 1 /\ K.of = "missed") => K.miss = 0
HonestAccepted == (l = 1 /\ K.of = "prove") => \A i \in DOMAIN K.res : K.res[i] = "ok"
WrongRejected == (l = 1 /\ K.of = "prove") => \A i \in DOMAIN K.bad : K.bad[i] = "InvalidProof"
=============================================================================
