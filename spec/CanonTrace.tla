----------------------------- MODULE CanonTrace -----------------------------
(* Recorded decompositions over one field, strict or plain. A try fixes the   *)
(* number and the bits and tells whether the constraints can be satisfied (1, *)
(* 0, or -1 if it could not tell); a run is an honest synthesis.              *)
EXTENDS Canon, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
K == Cases[t]
Init == t \in DOMAIN Cases /\ l = 0
Next == l < Len(K.rows) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Right(e) ==
  CASE e.k = "try" -> /\ Canonical(K.m, e.x)
                      /\ e.sat # -1 => (e.sat = 1 <=> IF K.strict THEN Strict(K.m, e.bits, e.x) ELSE Plain(K.m, e.bits, e.x))
    [] e.k = "run" -> /\ Canonical(K.m, e.x) /\ e.sat = 1
                      /\ e.claim = e.x /\ e.worth = e.x
    [] OTHER -> FALSE
CanonRight == K.panic = FALSE /\ (l > 0 => Right(K.rows[l]))
=============================================================================
