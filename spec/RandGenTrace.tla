---------------------------- MODULE RandGenTrace ----------------------------
(* generate_random_parameters: the toxic waste is recovered from the published *)
(* parameters (possible only because the groups are toys) and must explain     *)
(* every element; what is drawn must be independent.                           *)
EXTENDS Groth16, TLC, Json, IOUtils, FiniteSets
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Init == t \in DOMAIN Cases /\ l = 0
Next == l < 1 /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, l>>

Circ(k) ==
  LET e == SelectSeq(k.ops, LAMBDA o : o[1] = "enf")
  IN [nin |-> 1 + Len(SelectSeq(k.ops, LAMBDA o : o[1] = "inp")),
      naux |-> Len(SelectSeq(k.ops, LAMBDA o : o[1] = "aux")),
      cons |-> [i \in DOMAIN e |-> [a |-> e[i][2], b |-> e[i][3], c |-> e[i][4]]]]

Recover(k) ==
  LET p == k.p
      tau == FDiv(p, k.h[2], k.h[1])
      q == Qap(p, k.g, Circ(k), tau)
      g1 == FDiv(p, k.a[1], q.u[1])
      g2 == FDiv(p, FMul(p, g1, k.vk.beta_g2), k.vk.beta_g1)
  IN [g1 |-> g1, g2 |-> g2, tau |-> tau, alpha |-> FDiv(p, k.vk.alpha_g1, g1),
      beta |-> FDiv(p, k.vk.beta_g1, g1), gamma |-> FDiv(p, k.vk.gamma_g2, g2),
      delta |-> FDiv(p, k.vk.delta_g1, g1)]
Usable(k) == /\ Len(k.h) > 1 /\ k.h[1] # 0 /\ k.h[2] # 0
             /\ k.vk.beta_g1 # 0 /\ Len(k.a) > 0
             /\ Qap(k.p, k.g, Circ(k), FDiv(k.p, k.h[2], k.h[1])).u[1] # 0
Explained(k) ==
  LET crs == Crs(k.p, k.g, Circ(k), Recover(k))
  IN /\ k.vk.alpha_g1 = crs.alpha_g1 /\ k.vk.beta_g1 = crs.beta_g1 /\ k.vk.beta_g2 = crs.beta_g2
     /\ k.vk.gamma_g2 = crs.gamma_g2 /\ k.vk.delta_g1 = crs.delta_g1 /\ k.vk.delta_g2 = crs.delta_g2
     /\ k.vk.ic = crs.ic /\ k.h = crs.h /\ k.l = crs.l /\ k.a = crs.a /\ k.b_g1 = crs.b_g1 /\ k.b_g2 = crs.b_g2
RandomParametersExplained ==
  (l = 1 /\ Usable(Cases[t])) =>
     /\ Explained(Cases[t])
     /\ ~Accident(Cases[t].p, Cases[t].g, Circ(Cases[t]), Recover(Cases[t])) => Cases[t].res = "ok"

(* The secrets are drawn independently: over many runs none of them is        *)
(* mostly trivial or constant, and no two have a (nearly) constant ratio,     *)
(* difference, product or sum.                                                *)
Secrets == {"alpha", "beta", "gamma", "delta", "tau", "g1", "g2"}
SecretsIndependent ==
  (t = 1 /\ l = 1) =>
     LET usable == SelectSeq(Cases, LAMBDA k : Usable(k))
         n == Len(usable)
         p == Cases[1].p
         R == TLCEval([i \in 1..n |-> TLCEval(Recover(usable[i]))])
         Many(f(_)) == Cardinality({f(R[i]) : i \in 1..n}) * 2 > n
     IN /\ n * 4 >= Len(Cases)
        /\ \A x \in Secrets :
             /\ Cardinality({i \in 1..n : R[i][x] \in {0, 1}}) * 10 <= n
             /\ Many(LAMBDA r : r[x])
             /\ \A y \in Secrets \ {x} :
                  /\ Many(LAMBDA r : FDiv(p, r[x], r[y]))
                  /\ Many(LAMBDA r : FMul(p, r[x], r[y]))
                  /\ Many(LAMBDA r : FSub(p, r[x], r[y]))
                  /\ Many(LAMBDA r : FAdd(p, r[x], r[y]))
=============================================================================
