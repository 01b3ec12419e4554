------------------------------ MODULE LinComb ------------------------------
(* Linear combinations as formal sums over the variables 1..4 (1 is ONE, 2   *)
(* an input, 3 and 4 auxiliary). q = 0 stands for the integers, which embed  *)
(* small coefficients of a large field.                                      *)
(*  <<"zero">>                    the empty sum                              *)
(*  <<"addv"|"subv", r, v>>       plus or minus a variable                   *)
(*  <<"addc"|"subc", r, c, v>>    plus or minus c times a variable           *)
(*  <<"addl"|"subl", r, s>>       plus or minus another sum                  *)
(*  <<"addcl"|"subcl", r, c, s>>  plus or minus c times another sum          *)
EXTENDS Integers, Sequences
V == 1..4
Mod(q, x) == IF q = 0 THEN x ELSE x % q
NullLc == [v \in V |-> 0]
Unit(v) == [u \in V |-> IF u = v THEN 1 ELSE 0]
Axpy(q, a, c, b) == [v \in V |-> Mod(q, a[v] + (Mod(q, c) * b[v]))]
Sign(op) == IF op \in {"addv", "addc", "addl", "addcl"} THEN 1 ELSE -1
Apply(q, R, ins) ==
  LET op == ins[1] g == Sign(op) IN
  CASE op = "zero" -> NullLc
    [] op \in {"addv", "subv"} -> Axpy(q, R[ins[2]], g, Unit(ins[3]))
    [] op \in {"addc", "subc"} -> Axpy(q, R[ins[2]], g * ins[3], Unit(ins[4]))
    [] op \in {"addl", "subl"} -> Axpy(q, R[ins[2]], g, R[ins[3]])
    [] op \in {"addcl", "subcl"} -> Axpy(q, R[ins[2]], g * ins[3], R[ins[4]])
(* The formal sum of a list of terms <<variable, coefficient>>. *)
RECURSIVE FormalR(_, _, _, _)
FormalR(q, ts, i, acc) == IF i > Len(ts) THEN acc
                          ELSE FormalR(q, ts, i + 1, [acc EXCEPT ![ts[i][1]] = Mod(q, @ + ts[i][2])])
Formal(q, ts) == FormalR(q, ts, 1, NullLc)
Value(q, a, w) == Mod(q, Mod(q, a[1] * w[1]) + Mod(q, a[2] * w[2]) + Mod(q, a[3] * w[3]) + Mod(q, a[4] * w[4]))
=============================================================================
