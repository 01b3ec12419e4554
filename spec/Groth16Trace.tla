---------------------------- MODULE Groth16Trace ----------------------------
(* Checks recorded runs of the real generator, prover and verifier against    *)
(* Groth16. Every line of the trace is one circuit program with its events.   *)
EXTENDS Groth16, TLC, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l
vars == <<t, l>>
Init == t \in DOMAIN Cases /\ l = 0
Next == l < Len(Cases[t].ev) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars

Circ(k) ==
  LET e == SelectSeq(k.ops, LAMBDA o : o[1] = "enf")
  IN [nin |-> 1 + Len(SelectSeq(k.ops, LAMBDA o : o[1] = "inp")),
      naux |-> Len(SelectSeq(k.ops, LAMBDA o : o[1] = "aux")),
      cons |-> [i \in DOMAIN e |-> [a |-> e[i][2], b |-> e[i][3], c |-> e[i][4]]]]

K == Cases[t]
E == K.ev[l]
Is(x) == l > 0 /\ E.e = x
GenOf(k) == k.ev[1]
Has(r, f) == f \in DOMAIN r
Wellformed(c) == \A i \in 0..(c.naux - 1) : ~Unmentioned(K.p, c, 1, i)

(* ------------------------------------------------------------ C03 *)
ParamsEq(e, crs) ==
  /\ e.vk.alpha_g1 = crs.alpha_g1 /\ e.vk.beta_g1 = crs.beta_g1 /\ e.vk.beta_g2 = crs.beta_g2
  /\ e.vk.gamma_g2 = crs.gamma_g2 /\ e.vk.delta_g1 = crs.delta_g1 /\ e.vk.delta_g2 = crs.delta_g2
  /\ e.vk.ic = crs.ic /\ e.h = crs.h /\ e.l = crs.l
  /\ e.a = crs.a /\ e.b_g1 = crs.b_g1 /\ e.b_g2 = crs.b_g2
GeneratorFaithful ==
  Is("gen") =>
    LET c == Circ(K)
        errs == GenErrors(K.p, K.g, c, K.tox)
    IN IF E.res = "ok" THEN errs = {} /\ ParamsEq(E, Crs(K.p, K.g, c, K.tox))
                       ELSE E.res \in errs

(* ------------------------------------------------------------ C01 *)
Complete ==
  /\ \/ ~Is("gen")
     \/ E.res = "ok"
     \/ LET c == Circ(K) IN
        \/ ~FitsField(K.p, c) \/ ~Wellformed(c) \/ K.tox.gamma = 0 \/ K.tox.delta = 0
        \/ GenErrors(K.p, K.g, c, K.tox) # {}
        \/ Accident(K.p, K.g, c, K.tox)
  /\ \/ ~Is("prove")
     \/ GenOf(K).res # "ok"
     \/ E.res = "ok" /\ PairingHolds(K.p, GenOf(K).vk, E.pf, Tail(E.inp))
     \/ ~Satisfied(K.p, Circ(K), E.inp, E.aux)
     \/ Accident(K.p, K.g, Circ(K), K.tox)
  /\ \/ ~Is("verify")
     \/ E.res = "ok"
     \/ Has(E, "vk")
     \/ LET pr == K.ev[E.of] IN
        \/ E.pf # pr.pf \/ E.pub # Tail(pr.inp)
        \/ ~Satisfied(K.p, Circ(K), pr.inp, pr.aux)
        \/ Accident(K.p, K.g, Circ(K), K.tox)

(* ------------------------------------------------------------ C02 *)
VkOf(e) == IF Has(e, "vk") THEN e.vk ELSE GenOf(K).vk
VerifierExact == Is("verify") => E.res = Verify(K.p, VkOf(E), E.pf, E.pub)
(* Unsatisfying assignments: two independent reference strings, not both fooled. *)
NotFooled ==
  (Is("unsat") /\ ~Satisfied(K.p, Circ(K), E.inp, E.aux)) => ~(E.res1 = "ok" /\ E.res2 = "ok")

(* ------------------------------------------------------------ C04 *)
ProverExact ==
  \/ ~Is("prove")
  \/ GenOf(K).res # "ok"
  \/ E.res = "ok" /\ E.pf = Prove(K.p, K.g, Circ(K), K.tox, E.inp, E.aux, E.r, E.s)
  \/ ~Satisfied(K.p, Circ(K), E.inp, E.aux)
  \/ Accident(K.p, K.g, Circ(K), K.tox)
RequestsExact ==
  (Is("prove") /\ GenOf(K).res = "ok" /\ E.res = "ok") =>
     LET q == Requests(K.p, Circ(K)) IN
     /\ E.req.vk = q.vk /\ E.req.h = q.h /\ E.req.l = q.l
     /\ E.req.a = q.a /\ E.req.b1 = q.b /\ E.req.b2 = q.b
=============================================================================
