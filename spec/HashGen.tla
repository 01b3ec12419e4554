------------------------------ MODULE HashGen ------------------------------
(* Inputs for the hash circuits: function, number of bits, how the bits are  *)
(* made, personalization, and whether the certificate of the circuit is to   *)
(* be checked.                                                               *)
(*  const, zero, ones: constants        alloc, neg: fresh bits, negated ones *)
(*  one: one fresh bit among constants  alias: one bit, over and over        *)
(*  mixed: all of that                  head, tail: fresh first/second half  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Family, Deep
VARIABLE c
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
Pers == {Zero8, <<49, 50, 51, 52, 53, 54, 55, 56>>, <<255, 128, 129, 254, 200, 201, 130, 255>>,
         <<1, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 128>>, <<0, 0, 0, 7, 9, 0, 0, 0>>}
Some(S) == IF Deep THEN S ELSE {RandomElement(S)}
Edge == {0, 1, 2, 3, 4, 5, 31, 32, 33, 54, 55, 56, 57, 59, 60, 61, 63, 64, 65, 66, 67, 96, 118, 119, 120, 121, 127, 128, 129, 130, 184, 193, 250}
(* Many blocks; HashLong takes over from here. *)
Long == {191, 192, 193, 248, 255, 256, 257, 311, 320, 511, 512, 513}
          \cup (IF Deep THEN {639, 640, 1000} ELSE {})
Few == {0, 1, 55, 56, 63, 64, 65, 119, 120, 128}
Kinds == {"alloc", "neg", "one", "alias", "mixed", "head", "tail"}
P(alg) == IF alg = "b2s" THEN Pers ELSE {<<>>}
Mk(alg, n, k, p) == <<alg, n, k, p, 0>>
All(alg) ==
  UNION {
    \* every length, on constants
    IF Family # "consts" THEN {} ELSE
      {Mk(alg, 8 * n, "const", RandomElement(P(alg))) : n \in (0..(IF Deep THEN 330 ELSE 140)) \cup Long} \cup
      {Mk(alg, 8 * n, k, p) : n \in Few, k \in {"zero", "ones"}, p \in P(alg)},
    IF Family # "wires" THEN {} ELSE
      UNION {{Mk(alg, 8 * n, k, RandomElement(P(alg))) : k \in IF Deep THEN Kinds ELSE {"mixed"}} : n \in Edge \ {0}} \cup
      UNION {{Mk(alg, 8 * n, k, p) : p \in Some(P(alg))} : n \in {1, 5, 64}, k \in Kinds} \cup
      {Mk(alg, 8 * n, "alloc", p) : n \in {2}, p \in P(alg)},
    IF Family # "cert" THEN {} ELSE
      {<<alg, 8 * n, k, RandomElement(P(alg)), 1>> : n \in IF Deep THEN {1, 33, 56, 64, 65, 100, 128} ELSE {7, 66}, k \in IF Deep THEN {"alloc", "mixed", "tail"} ELSE {"mixed"}},
    IF Family # "few" THEN {} ELSE
      {Mk(alg, 8 * n, k, RandomElement(P(alg))) : n \in IF Deep THEN Edge \ {0} ELSE {3, 56, 64}, k \in IF Deep THEN Kinds ELSE {"mixed", "one"}}
  }
Bad(alg) == IF Family # "consts" THEN {} ELSE {Mk(alg, n, "const", RandomElement(P(alg))) : n \in {1, 7, 9, 447, 505, 511, 513}}
Block == CASE Family = "consts" -> {Mk("block", 512, k, <<>>) : k \in {"const", "zero", "ones"}} \cup {Mk("block", n, "const", <<>>) : n \in {0, 8, 504, 520, 1024}}
           [] Family = "wires" -> {Mk("block", 512, k, <<>>) : k \in Kinds}
           [] Family = "cert" -> {<<"block", 512, "mixed", <<>>, 1>>}
           [] Family = "few" -> {Mk("block", 512, "mixed", <<>>)}
BadPers == IF Family # "consts" THEN {} ELSE {Mk("b2s", 64, "const", p) : p \in {<<>>, <<1, 2, 3, 4, 5, 6, 7>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>}}
CONSTANT Algs
Init == c \in TLCEval(UNION {IF a = "block" THEN Block ELSE All(a) \cup Bad(a) \cup (IF a = "b2s" THEN BadPers ELSE {}) : a \in Algs})
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(ToJson(c))
=============================================================================
