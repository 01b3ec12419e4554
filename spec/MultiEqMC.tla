----------------------------- MODULE MultiEqMC -----------------------------
(* Design model of the accumulating equality helper: equalities of values of *)
(* w bits are weighted by 2^used and added up, and the sums are compared in  *)
(* the field F_p whenever the next one would exceed the limit. Checked for   *)
(* all sequences of widths and all values: the comparisons hold exactly when *)
(* all equalities do. Limit = NUM_BITS - 1 is the capacity; with a limit     *)
(* beyond it the invariant fails (MultiEqMC_beyond.cfg, expected to fail).      *)
EXTENDS Integers, Sequences
CONSTANTS P, Limit, MaxEqs
VARIABLES used, lhs, rhs, holds, equal, n, left
vars == <<used, lhs, rhs, holds, equal, n, left>>
Init == used = 0 /\ lhs = 0 /\ rhs = 0 /\ holds = TRUE /\ equal = TRUE /\ n = 0 /\ left = FALSE
Flush(a, b) == a = b
Equal(w, a, b) ==
  /\ ~left /\ n < MaxEqs /\ w < Limit
  /\ LET f == used + w >= Limit IN
     /\ holds' = (holds /\ (f => Flush(lhs, rhs)))
     /\ lhs' = (((IF f THEN 0 ELSE lhs) + a * (2 ^ (IF f THEN 0 ELSE used))) % P)
     /\ rhs' = (((IF f THEN 0 ELSE rhs) + b * (2 ^ (IF f THEN 0 ELSE used))) % P)
     /\ used' = (IF f THEN 0 ELSE used) + w
  /\ equal' = (equal /\ a = b)
  /\ n' = n + 1 /\ UNCHANGED left
Drop == /\ ~left /\ left' = TRUE
        /\ holds' = (holds /\ (used > 0 => Flush(lhs, rhs)))
        /\ UNCHANGED <<used, lhs, rhs, equal, n>>
Next == Drop \/ \E w \in 1..(Limit - 1) : \E a, b \in 0..(2 ^ w - 1) : Equal(w, a, b)
Spec == Init /\ [][Next]_vars
Exact == left => (holds <=> equal)
Bounded == used < Limit
\* nothing wraps around: the field values are the integers that they stand for
NoWrap == lhs < 2 ^ used /\ rhs < 2 ^ used
=============================================================================
