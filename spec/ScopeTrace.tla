----------------------------- MODULE ScopeTrace -----------------------------
(* Parallel regions: n elements are split into chunks of at least one, every  *)
(* task has run when the region returns, its value is returned; and results   *)
(* of whole computations do not depend on how many threads there are.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
Init == t \in DOMAIN Cases /\ l = 0
Next == l < Len(Cases[t].ev) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
K == Cases[t]
E == K.ev[l]
ScopeOk ==
  (l > 0 /\ E.e = "scope") =>
     /\ E.chunk >= 1
     /\ E.ret = E.want
     /\ E.ran = E.spawned
     /\ E.once
     /\ E.spawned = 2 * ((E.n + E.chunk - 1) \div E.chunk)
LogOk == (l > 0 /\ E.e = "log") => /\ 2 ^ E.v <= K.T
                                   /\ (K.mc => 2 ^ (E.v + 1) > K.T)
(* One case per computation; its events are the runs with different thread    *)
(* counts and builds.                                                         *)
ThreadsIrrelevant == (l > 0 /\ E.e = "run") => E.out = K.ev[1].out
=============================================================================
