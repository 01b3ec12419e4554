----------------------------- MODULE DomainGen -----------------------------
(* Histories of operations on an evaluation domain. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps, Sizes
VARIABLES n, kind, ops, done
vars == <<n, kind, ops, done>>
Names == {"fft", "ifft", "coset_fft", "icoset_fft", "dist", "div", "mul", "sub", "set", "z"}
Init == n \in Sizes /\ kind \in {"s", "pt"} /\ ops = <<>> /\ done = FALSE
Do == /\ ~done /\ Len(ops) < MaxOps /\ \E o \in Names : ops' = Append(ops, o) /\ UNCHANGED <<n, kind, done>>
Finish == /\ ~done /\ Len(ops) = MaxOps /\ done' = TRUE /\ UNCHANGED <<n, kind, ops>>
Next == Do \/ Finish
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson([n |-> n, kind |-> kind, ops |-> ops]))
SmallSizes == {0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 31, 33, 64, 100}
FewSizes == {1, 3, 6, 16}
=============================================================================
