------------------------------ MODULE LinTrace ------------------------------
(* Recorded histories of linear combinations: regs[k] are the raw terms that *)
(* the k-th operation produced, worth their formal sum. Then the ways to use *)
(* a combination: constraints in the test system (enf), its hash (hash), and *)
(* whole proofs in which the history or its formal sum are used (g16).       *)
EXTENDS LinComb, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, regs
vars == <<t, l, regs>>
K == Cases[t]
N == Len(K.ops)
E == Len(K.enf)
G == Len(K.g16)
Init == t \in DOMAIN Cases /\ l = 0 /\ regs = <<>>
Next == /\ l < N + E + G /\ K.panic = 0
        /\ l' = l + 1
        /\ regs' = IF l < N THEN TLCEval(Append(regs, TLCEval(Apply(K.q, regs, K.ops[l + 1])))) ELSE regs
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
(* The terms add up to the sum that the history means. *)
SumRight == (l \in 1..N) => Formal(K.q, K.regs[l]) = regs[l]
(* A constraint a * b = c in the test system under some assignment. *)
EnfRight(e) ==
  LET a == Value(K.q, regs[e.a], e.w) b == Value(K.q, regs[e.b], e.w)
      c == Value(K.q, regs[e.c], e.w)
  IN /\ e.sat <=> Mod(K.q, a * b) = c
     /\ e.same   \* terms recorded by a constraint system are those of the combination
     /\ e.hashed <=> Len(e.hash) = 4
     \* the hash depends on the formal sums only: the same for the sums written
     \* out, and another one after a change to a, to b or to c
     /\ e.hashed => e.hash[1] = 1 /\ \A i \in 2..4 : e.hash[i] = 0
GRight(g) == /\ g.params
             /\ g.err = "" => \A i \in DOMAIN g.proofs : g.proofs[i] /\ g.ver[i] = "ok"
             /\ g.err \in {"", "UnconstrainedVariable"}
LinRight == /\ K.panic = 0
            /\ SumRight
            /\ (l \in (N + 1)..(N + E)) => EnfRight(K.enf[l - N])
            /\ (l \in (N + E + 1)..(N + E + G)) => GRight(K.g16[l - N - E])
=============================================================================
