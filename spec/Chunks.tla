------------------------------- MODULE Chunks -------------------------------
(* A parallel region over n elements with T threads: chunks are handed out,   *)
(* each task takes its elements one by one, and the region returns once all   *)
(* tasks, including those that tasks have spawned, are done. Whatever the     *)
(* interleaving, every element is processed exactly once, no chunk is empty,  *)
(* and the result is that of a single thread.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN, MaxT
VARIABLES n, T, next, tasks, seen, returned
vars == <<n, T, next, tasks, seen, returned>>
Chunk == IF n < T THEN 1 ELSE n \div T
Init == /\ n \in 0..MaxN /\ T \in 1..MaxT
        /\ next = 0 /\ tasks = {} /\ seen = [i \in 0..(n - 1) |-> 0] /\ returned = FALSE
(* The caller cuts off the next chunk. *)
Spawn == /\ next < n
         /\ LET hi == IF next + Chunk > n THEN n ELSE next + Chunk IN
            /\ tasks' = tasks \cup {<<next, next, hi>>}
            /\ next' = hi
         /\ UNCHANGED <<n, T, seen, returned>>
Work == \E k \in tasks :
          /\ seen' = [seen EXCEPT ![k[2]] = @ + 1]
          /\ tasks' = (tasks \ {k}) \cup (IF k[2] + 1 = k[3] THEN {} ELSE {<<k[1], k[2] + 1, k[3]>>})
          /\ UNCHANGED <<n, T, next, returned>>
Return == /\ ~returned /\ next = n /\ tasks = {} /\ returned' = TRUE
          /\ UNCHANGED <<n, T, next, tasks, seen>>
Next == Spawn \/ Work \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NonEmpty == \A k \in tasks : k[2] < k[3]
Disjoint == \A i \in DOMAIN seen : seen[i] <= 1
Complete == returned => \A i \in DOMAIN seen : seen[i] = 1
(* At most one task more per thread than there are threads. *)
Bounded == Cardinality(tasks) <= 2 * T
Returns == <>returned
=============================================================================
