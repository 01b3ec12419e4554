----------------------------- MODULE ProverTrace -----------------------------
(* Recorded proof creations with unusable, foreign or failing parameters.      *)
EXTENDS Prover, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Init == t \in DOMAIN Cases /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, l>>
K == Cases[t]
Circ(k) ==
  LET e == SelectSeq(k.ops, LAMBDA o : o[1] = "enf")
  IN [nin |-> 1 + Len(SelectSeq(k.ops, LAMBDA o : o[1] = "inp")),
      naux |-> Len(SelectSeq(k.ops, LAMBDA o : o[1] = "aux")),
      cons |-> [i \in DOMAIN e |-> [a |-> e[i][2], b |-> e[i][3], c |-> e[i][4]]]]
SetOf(s) == {s[i] : i \in DOMAIN s}
ErrorsReported ==
  l = 0 \/
  LET c == Circ(K)
      st == Streams(K.p, K.g, c, K.key, K.inp, K.aux)
      errs == ProveErrors(K.key, st, SetOf(K.qerr), K.sfail)
  IN IF K.res = "ok" THEN errs = {} /\ K.pf = ProveWith(K.p, K.key, st, K.r, K.s)
                     ELSE K.res \in errs
=============================================================================
