---------------------------- MODULE WeightTrace ----------------------------
(* The weights that batch verification gives its items, over many generators: *)
(* never zero, never the same twice, no item's weight a fixed function of      *)
(* another's, and every bit of a weight takes both values. And over many       *)
(* tosses no batch with wrong items is accepted.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Init == t \in DOMAIN Cases /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, l>>
K == Cases[t]
Has(f) == f \in DOMAIN K
Zero == <<0, 0, 0, 0>>
Distinct(s) == Cardinality({s[i] : i \in DOMAIN s}) = Len(s)
Bit(x, b) == (x[b \div 16 + 1] \div 2 ^ (b % 16)) % 2
WeightsFresh ==
  (l = 1 /\ Has("w")) =>
     /\ \A r \in DOMAIN K.w : Distinct(K.w[r]) /\ \A i \in DOMAIN K.w[r] : K.w[r][i] # Zero
     /\ \A i \in DOMAIN K.w[1] : Distinct([r \in DOMAIN K.w |-> K.w[r][i]])
     /\ \A k \in DOMAIN K.rel : Distinct(K.rel[k])
     /\ \A i \in DOMAIN K.w[1] : \A b \in 0..63 :
          Cardinality({r \in DOMAIN K.w : Bit(K.w[r][i], b) = 1}) \in 6..(Len(K.w) - 6)
NeverAccepted == (l = 1 /\ Has("acc") /\ K.bad > 0) => K.acc = 0 /\ K.pacc = 0
=============================================================================
