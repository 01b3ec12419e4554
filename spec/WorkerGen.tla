----------------------------- MODULE WorkerGen -----------------------------
(* Histories for the real worker pool: submissions of quick, gated and        *)
(* nesting jobs by several callers, releases of gates, waits and drops, in    *)
(* every order. Finished histories are printed and then replayed.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxJobs, Callers
VARIABLES ops, n, gated, held, done
vars == <<ops, n, gated, held, done>>
Init == ops = <<>> /\ n = 0 /\ gated = {} /\ held = {} /\ done = FALSE
Add(o) == ops' = Append(ops, o)
(* A nesting job j has the child 1000 + j. *)
Submit == /\ ~done /\ n < MaxJobs /\ n' = n + 1
          /\ \E c \in 1..Callers : \E k \in {"q", "g", "n"} :
               /\ Add(<<"sub", c, k, n + 1>>)
               /\ gated' = IF k = "g" THEN gated \cup {n + 1} ELSE gated
               /\ held' = held \cup (IF k = "n" THEN {n + 1, 1001 + n} ELSE {n + 1})
          /\ UNCHANGED done
Release == /\ ~done /\ \E j \in gated : Add(<<"rel", j>>) /\ gated' = gated \ {j}
           /\ UNCHANGED <<n, held, done>>
Wait == /\ ~done /\ \E j \in held : Add(<<"wait", j>>) /\ held' = held \ {j}
        /\ UNCHANGED <<n, gated, done>>
Drop == /\ ~done /\ \E j \in held : Add(<<"drop", j>>) /\ held' = held \ {j}
        /\ UNCHANGED <<n, gated, done>>
Finish == /\ ~done /\ n = MaxJobs /\ done' = TRUE /\ UNCHANGED <<ops, n, gated, held>>
Next == Submit \/ Release \/ Wait \/ Drop \/ Finish
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson([ops |-> ops]))
=============================================================================
