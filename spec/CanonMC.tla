------------------------------ MODULE CanonMC ------------------------------
(* The relations on strings, against numbers, for all odd moduli of W bits:   *)
(* exactly one string is strict for each element, and plain ones are those of *)
(* numbers that are congruent to it (one or two).                             *)
EXTENDS Canon, FiniteSets, TLC
CONSTANT W
Str == [1..W -> {0, 1}]
RECURSIVE V(_, _)
V(b, i) == IF i > Len(b) THEN 0 ELSE b[i] + (2 * V(b, i + 1))
Val(b) == V(b, 1)
VARIABLES m, x
Init == /\ m \in {s \in Str : s[1] = 0 /\ s[W] = 1}
        /\ x \in {s \in Str : Val(s) <= Val(m)}
Next == UNCHANGED <<m, x>>
Spec == Init /\ [][Next]_<<m, x>>
R == Val(m) + 1
Exact == /\ Canonical(m, x)
         /\ {b \in Str : Strict(m, b, x)} = {x}
         /\ {b \in Str : Plain(m, b, x)} = {b \in Str : (Val(b) % R) = Val(x)}
=============================================================================
