------------------------------ MODULE FaultGen ------------------------------
(* Plans of what may be wrong with a parameter source: a fault is <<kind,      *)
(* where, position class>>. TLC enumerates all plans with at most Max faults.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Max
Queries == {"vk", "h", "l", "a", "b1", "b2"}
Kinds == {"AssignmentMissing", "DivisionByZero", "Unsatisfiable", "PolynomialDegreeTooLarge",
          "UnexpectedIdentity", "IoOther", "IoEof", "UnconstrainedVariable"}
Vectors == {"h", "l", "a", "b1", "b2"}
Keys == {"alpha1", "beta1", "beta2", "delta1", "delta2"}
Faults ==
  {<<"qerr", q, k>> : q \in Queries, k \in Kinds}
  \cup {<<"cut", v, k>> : v \in Vectors, k \in {"0", "1", "half", "last"}}
  \cup {<<"id", v, k>> : v \in Vectors, k \in {"0", "1", "half", "last", "all"}}
  \cup {<<"strm", v, k>> : v \in {"0", "1", "2", "3", "4", "5", "6", "7"}, k \in {"0", "half", "last"}}
  \cup {<<"key", v, "">> : v \in Keys}
  \cup {<<"more", v, "">> : v \in Vectors}
  \cup {<<"foreign", "", "">>}
VARIABLE plan
Init == plan = {}
Next == /\ Cardinality(plan) < Max
        /\ \E f \in Faults : /\ f \notin plan
                             /\ \A g \in plan : ~(g[1] = "qerr" /\ f[1] = "qerr")
                             /\ plan' = plan \cup {f}
Spec == Init /\ [][Next]_plan
Emit == PrintT(ToJson(plan))
=============================================================================
