------------------------------ MODULE WordGen ------------------------------
(* Generates programs over 32-bit words.                                     *)
(*  shift: every rotation and shift amount, followed by an addition          *)
(*  const: bitwise operations over allocated and constant words, all choices *)
(*         of operands, followed by additions                                *)
(*  mixed: simulated longer programs over mixed words                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Family, Max
VARIABLE prog
vars == <<prog>>
RBit == RandomElement({0, 1})
RWord == [i \in 1..32 |-> RBit]
Zero == [i \in 1..32 |-> 0]
Ones == [i \in 1..32 |-> 1]
RKinds(S) == [i \in 1..32 |-> RandomElement(S)]
Prefix ==
  CASE Family = "shift" -> {<<<<"walloc">>, <<"wmix", "be", [i \in 1..32 |-> i % 4]>>, <<"wconst", [i \in 1..32 |-> IF i % 3 = 0 THEN 1 ELSE 0]>>>>}
    [] Family = "const" -> {<<<<"walloc">>, <<"walloc">>, <<"wconst", Zero>>, <<"wconst", Ones>>, <<"wconst", [i \in 1..32 |-> IF i % 5 \in {0, 3} THEN 1 ELSE 0]>>>>}
    [] Family = "mixed" -> {<<<<"walloc">>, <<"wmix", "le", RKinds(0..3)>>, <<"wmix", "be", RKinds(0..5)>>,
                              <<"wmix", "le", RKinds({2, 3, 4, 5})>>, <<"wconst", RWord>>, <<"wmix", "be", RKinds({0, 1, 1, 0, 2})>>>>}
Init == prog \in Prefix
N0 == CASE Family = "shift" -> 3 [] Family = "const" -> 5 [] Family = "mixed" -> 6
R == 1..Len(prog)
Ops == Len(prog) - N0
Do(ins) == prog' = Append(prog, ins)
Pick == RandomElement(R)
Next ==
  CASE Family = "shift" ->
         \/ Ops = 0 /\ \E op \in {"wrot", "wshr"}, r \in 1..3, k \in 0..Max : Do(<<op, r, k>>)
         \/ Ops = 1 /\ Do(<<"wadd", 4, 3>>)
    [] Family = "const" ->
         \/ Ops = 0 /\ \E op \in {"wch", "wmaj"}, a \in 1..5, b \in 1..5, c \in 1..5 : Do(<<op, a, b, c>>)
         \/ Ops = 0 /\ \E a \in 1..5, b \in 1..5 : Do(<<"wxor", a, b>>)
         \/ Ops = 1 /\ Do(<<"wadd", 6, 5>>)
    [] Family = "mixed" ->
         /\ Ops < Max
         /\ \/ \E op \in {RandomElement({"wrot", "wshr"})}, r \in {Pick}, k \in {RandomElement(0..70)} : Do(<<op, r, k>>)
            \/ \E r \in {Pick}, k \in {RandomElement(0..3)} : Do(<<"wrev", r, k>>)
            \/ \E a \in {Pick}, b \in {Pick} : Do(<<"wxor", a, b>>)
            \/ \E op \in {"wch", "wmaj"}, a \in {Pick}, b \in {Pick}, c \in {Pick} : Do(<<op, a, b, c>>)
            \/ \E n \in {RandomElement(2..10)} : \E s \in {[i \in 1..n |-> Pick]} : Do(<<"wadd">> \o s)
            \/ \E n \in {RandomElement({2, 3, 9, 10})}, r \in {Pick} : Do(<<"wadd">> \o [i \in 1..n |-> r])
Spec == Init /\ [][Next]_vars
Complete == CASE Family \in {"shift", "const"} -> Ops = 2 [] Family = "mixed" -> Ops = Max
Emit == Complete => PrintT(ToJson(prog))
=============================================================================
