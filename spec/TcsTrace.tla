------------------------------ MODULE TcsTrace ------------------------------
(* Recorded histories of the test constraint system, with namespaces opened  *)
(* by hand (raw) or as values (scoped); of a system that ignores names (rec);*)
(* and hashes of systems that differ a little (hash).                        *)
EXTENDS TestCs, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, st, res
vars == <<t, l, st, res>>
K == Cases[t]
Q == K.q
Init == t \in DOMAIN Cases /\ l = 0 /\ st = Start /\ res = Ok(<<>>)
Step == /\ K.mode \in {"raw", "scoped"} /\ l < Len(K.ops) /\ ~res.refused
        /\ l' = l + 1
        /\ LET r == TLCEval(Do(st, K.ops[l + 1])) IN st' = r.st /\ res' = [r EXCEPT !.st = <<>>]
        /\ UNCHANGED t
Next == Step
Spec == Init /\ [][Next]_vars
Ev == K.log[l]
EventRight ==
  /\ l <= Len(K.log)
  /\ Ev.r = res.refused
  /\ ~Ev.r => /\ Ev.e = res.err /\ Ev.v = res.v
              /\ LET b == TLCEval(FirstBroken(Q, st)) IN Ev.bad = b /\ (Ev.sat <=> b = <<>>)
              /\ Ev.nin = Len(st.inp) /\ Ev.ncons = Len(st.cons)
(* A system that ignores names gets exactly the allocations and constraints. *)
Built(kind) == SelectSeq(K.ops, LAMBDA o : o[1] = kind)
Given(kind) == Cardinality({i \in DOMAIN K.ops : K.ops[i][1] = kind /\ K.ops[i][3] # -1})
RecRight == /\ K.nin = 1 + Given("input") /\ K.naux = Given("alloc")
            /\ LET e == Built("enf") IN
                 /\ Len(K.cons) = Len(e)
                 /\ \A i \in DOMAIN e : \A j \in 1..3 : Canon(Q, K.cons[i][j]) = Canon(Q, e[i][j + 2])
RECURSIVE Run(_, _, _)
Run(s, ops, i) == IF i > Len(ops) THEN s ELSE Run(TLCEval(Do(s, ops[i]).st), ops, i + 1)
(* Hashes agree exactly if the systems are the same but for names and values. *)
Big == 1000003
HashRight == LET S == TLCEval([i \in DOMAIN K.vars |-> TLCEval(Shape(Big, Run(Start, K.vars[i].ops, 1)))])
             IN \A i \in DOMAIN K.vars : K.vars[i].again /\ \A j \in 1..i : K.vars[i].hash = K.vars[j].hash <=> S[i] = S[j]
TcsRight == /\ K.panic = FALSE
            /\ l > 0 => EventRight
            /\ (l = 0 /\ K.mode = "rec") => RecRight
            /\ (l = 0 /\ K.mode = "hash") => HashRight
=============================================================================
