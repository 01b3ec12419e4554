------------------------------- MODULE LinGen -------------------------------
(* Generates histories of operations on linear combinations. "pairs": every  *)
(* sequence of Max operations after a fixed prefix; "sim": longer ones.      *)
EXTENDS LinComb, TLC, Json
CONSTANTS Family, Max
VARIABLE prog
Prefix == <<<<"zero">>, <<"addc", 1, 2, 3>>, <<"subv", 2, 2>>, <<"addv", 3, 1>>>>
Prefix2 == <<<<"zero">>, <<"addc", 1, 3, 2>>, <<"addv", 2, 3>>, <<"addc", 3, -3, 2>>>>
Init == prog \in IF Family = "pairs" THEN {Prefix, Prefix2} ELSE {<<<<"zero">>>>}
Coef == IF Family = "pairs" THEN {0, 1, -1, 2} ELSE {0, 1, -1, 2, -2, 3, 5}
Do(x) == prog' = Append(prog, x)
R == 1..Len(prog)
Base == IF Family = "pairs" THEN {1, 4, Len(prog)} ELSE {RandomElement(R)}
Oth == IF Family = "pairs" THEN {1, 3, 4, Len(prog)} ELSE {RandomElement(R)}
Vs == IF Family = "pairs" THEN {1, 3} ELSE {RandomElement(V)}
Cs == IF Family = "pairs" THEN Coef ELSE {RandomElement(Coef)}
Next ==
  /\ Len(prog) < Max + (IF Family = "pairs" THEN 4 ELSE 1)
  /\ \/ \E op \in {"addv", "subv"}, r \in Base, v \in Vs : Do(<<op, r, v>>)
     \/ \E op \in {"addc", "subc"}, r \in Base, c \in Cs, v \in Vs : Do(<<op, r, c, v>>)
     \/ \E op \in {"addl", "subl"}, r \in Base, s \in Oth : Do(<<op, r, s>>)
     \/ \E op \in {"addcl", "subcl"}, r \in Base, c \in Cs, s \in Oth : Do(<<op, r, c, s>>)
Spec == Init /\ [][Next]_prog
Emit == Len(prog) = Max + (IF Family = "pairs" THEN 4 ELSE 1) => PrintT(ToJson(prog))
=============================================================================
