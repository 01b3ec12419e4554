----------------------------- MODULE CircuitGen -----------------------------
(* The behaviours of a circuit: a sequence of allocations, constraints and    *)
(* namespaces, together with a satisfying assignment. TLC explores it (or     *)
(* simulates it) and prints every finished program; each is then synthesized  *)
(* by the real generator and the real prover.                                 *)
EXTENDS Groth16, TLC, Json, Randomization, FiniteSets

CONSTANTS P,            \* the field
          Values,       \* witness values
          Coeffs,       \* coefficients
          MaxInp, MaxAux, MaxCons, MinOps, MaxOps,
          Rich,         \* the full catalogue of linear combinations
          Pick(_),      \* which of several choices to follow: all, or a few at random
          Toxics        \* the toxic waste to attach; {} for a random one

VARIABLES ops, inp, aux, nc, depth, done
vars == <<ops, inp, aux, nc, depth, done>>

VarsNow == {<<0, i - 1>> : i \in DOMAIN inp} \cup {<<1, i - 1>> : i \in DOMAIN aux}
Val(v) == IF v[1] = 1 THEN aux[v[2] + 1] ELSE inp[v[2] + 1]
T(v, k) == <<v[1], v[2], k>>
ONE == <<0, 0>>

Basic == {<<>>} \cup {<<T(v, 1)>> : v \in VarsNow}
Shapes ==
  Basic \cup
  (IF ~Rich THEN {<<T(v, 1), T(v, P - 1)>> : v \in VarsNow \ {ONE}}
   ELSE {<<T(v, k)>> : v \in VarsNow, k \in Coeffs}
        \cup {<<T(v, 1), T(x, k)>> : v \in VarsNow, x \in VarsNow, k \in Coeffs}
        \cup {<<T(v, k), T(x, 1), T(v, P - k)>> : v \in VarsNow, x \in VarsNow, k \in {1, 2}}
        \cup {<<T(v, 1), T(v, k), T(ONE, 3)>> : v \in VarsNow, k \in Coeffs})

Init == ops = <<>> /\ inp = <<1>> /\ aux = <<>> /\ nc = 0 /\ depth = 0 /\ done = FALSE

Room == ~done /\ Len(ops) < MaxOps
AllocInput == /\ Room /\ Len(inp) <= MaxInp
              /\ \E v \in Pick(Values) : /\ inp' = Append(inp, v)
                                         /\ ops' = Append(ops, <<"inp", v>>)
              /\ UNCHANGED <<aux, nc, depth, done>>
AllocAux == /\ Room /\ Len(aux) < MaxAux
            /\ \E v \in Pick(Values) : /\ aux' = Append(aux, v)
                                       /\ ops' = Append(ops, <<"aux", v>>)
            /\ UNCHANGED <<inp, nc, depth, done>>
(* A right-hand side with the required value. *)
Rhs(x) == {<<T(ONE, x)>>} \cup {<<T(v, FDiv(P, x, Val(v)))>> : v \in {y \in VarsNow : Val(y) # 0}}
          \cup (IF x = 0 THEN {<<>>} ELSE {})
Enforce == /\ Room /\ nc < MaxCons
           /\ \E a \in Pick(Shapes) : \E b \in Pick(Shapes) :
                \E c \in Pick(Rhs(FMul(P, LcValue(P, a, inp, aux), LcValue(P, b, inp, aux)))) :
                  ops' = Append(ops, <<"enf", a, b, c>>)
           /\ nc' = nc + 1 /\ UNCHANGED <<inp, aux, depth, done>>
(* A multiplication gate: a fresh variable for the product. *)
MulGate == /\ Room /\ nc < MaxCons /\ Len(aux) < MaxAux
           /\ \E a \in Pick(Shapes) : \E b \in Pick(Shapes) :
                LET x == FMul(P, LcValue(P, a, inp, aux), LcValue(P, b, inp, aux))
                IN /\ aux' = Append(aux, x)
                   /\ ops' = ops \o << <<"aux", x>>, <<"enf", a, b, <<T(<<1, Len(aux)>>, 1)>> >> >>
           /\ nc' = nc + 1 /\ UNCHANGED <<inp, depth, done>>
Enter == /\ Rich /\ Room /\ depth < 3 /\ ops' = Append(ops, <<"ns">>) /\ depth' = depth + 1
         /\ UNCHANGED <<inp, aux, nc, done>>
Leave == /\ Rich /\ Room /\ depth > 0 /\ ops' = Append(ops, <<"end">>) /\ depth' = depth - 1
         /\ UNCHANGED <<inp, aux, nc, done>>
Finish == /\ ~done /\ Len(ops) >= MinOps /\ depth = 0 /\ done' = TRUE
          /\ UNCHANGED <<ops, inp, aux, nc, depth>>

Next == AllocInput \/ AllocAux \/ Enforce \/ MulGate \/ Enter \/ Leave \/ Finish
Spec == Init /\ [][Next]_vars

Circ == [nin |-> Len(inp), naux |-> Len(aux),
         cons |-> LET e == SelectSeq(ops, LAMBDA o : o[1] = "enf")
                  IN [i \in DOMAIN e |-> [a |-> e[i][2], b |-> e[i][3], c |-> e[i][4]]]]
(* Every program the generator builds is satisfied by its assignment. *)
AlwaysSatisfied == Satisfied(P, Circ, inp, aux)

Nz == 1..(P - 1)
RandomTox(n) == [g1 |-> RandomElement(Nz), g2 |-> RandomElement(Nz), alpha |-> RandomElement(Nz),
              beta |-> RandomElement(Nz), gamma |-> RandomElement(Nz), delta |-> RandomElement(Nz),
              tau |-> RandomElement(Nz \ {n})]
Tox == IF Toxics = {} THEN RandomTox(Len(ops) + 1) ELSE CHOOSE t \in Toxics : TRUE
Emit == done => PrintT(ToJson([ops |-> ops, tox |-> Tox, r |-> RandomElement(0..(P - 1)),
                               s |-> RandomElement(0..(P - 1))]))

PickAll(S) == S
PickSome(S) == RandomSubset(IF Cardinality(S) < 2 THEN Cardinality(S) ELSE 2, S)
RichCoeffs == {1, 2, P - 1, 777}
RichValues == {0, 1, 2, 5, P - 1, 12345, 40000}
=============================================================================
