----------------------------- MODULE Groth16MC -----------------------------
(* Design check of Groth16: the system as a state machine (setup, proving by  *)
(* an honest or a cheating prover, publication, verification), explored       *)
(* exhaustively over F_17 for a catalogue of circuits.                        *)
EXTENDS Groth16, TLC, FiniteSets
CONSTANTS P, G, Toxics, Rands

T(x, i, k) == <<x, i, k>>
One == T(0, 0, 1)
Cat == <<
  \* x * x = y
  [circ |-> [nin |-> 2, naux |-> 1,
             cons |-> << [a |-> <<T(1,0,1)>>, b |-> <<T(1,0,1)>>, c |-> <<T(0,1,1)>>] >>],
   good |-> { << <<1, 9>>, <<3>> >>, << <<1, 9>>, <<14>> >> }, bad |-> { << <<1, 9>>, <<5>> >> }],
  \* a bit, its negation, a product; terms that cancel in A
  [circ |-> [nin |-> 2, naux |-> 2,
             cons |-> << [a |-> <<T(1,0,1)>>, b |-> <<One, T(1,0,16)>>, c |-> <<>>],
                         [a |-> <<T(1,0,2), T(1,1,1), T(1,1,16)>>, b |-> <<T(0,1,1)>>, c |-> <<T(1,1,1)>>] >>],
   good |-> { << <<1, 4>>, <<1, 8>> >>, << <<1, 4>>, <<0, 0>> >> }, bad |-> { << <<1, 4>>, <<1, 7>> >>, << <<1, 4>>, <<2, 16>> >> }],
  \* nothing but the constant
  [circ |-> [nin |-> 1, naux |-> 0, cons |-> <<>>], good |-> { << <<1>>, <<>> >> }, bad |-> {}],
  \* four rows, two public inputs
  [circ |-> [nin |-> 3, naux |-> 1,
             cons |-> << [a |-> <<T(1,0,1), T(0,1,1)>>, b |-> <<T(0,2,1)>>, c |-> <<T(0,1,5)>>] >>],
   good |-> { << <<1, 2, 5>>, <<0>> >>, << <<1, 5, 5>>, <<0>> >> }, bad |-> { << <<1, 2, 5>>, <<1>> >> }] >>

VARIABLES ph, k, tox, wit, pf, pub
vars == <<ph, k, tox, wit, pf, pub>>
None == <<>>
C == Cat[k].circ
Init == /\ ph = "setup" /\ k \in DOMAIN Cat /\ tox \in Toxics /\ wit = None /\ pf = None /\ pub = None
ProveStep == /\ ph = "setup" /\ GenErrors(P, G, C, tox) = {} /\ ~Accident(P, G, C, tox)
             /\ \E w \in Cat[k].good, r \in Rands, s \in Rands :
                  /\ wit' = w
                  /\ pf' = Prove(P, G, C, tox, w[1], w[2], r, s)
                  /\ pub' = Tail(w[1])
             /\ ph' = "published" /\ UNCHANGED <<k, tox>>
CheatStep == /\ ph = "setup" /\ GenErrors(P, G, C, tox) = {} /\ ~Accident(P, G, C, tox)
             /\ \E w \in Cat[k].bad :
                  /\ wit' = w
                  /\ pf' = Prove(P, G, C, tox, w[1], w[2], 1, 2)   \* ignores divisibility
                  /\ pub' = Tail(w[1])
             /\ ph' = "cheated" /\ UNCHANGED <<k, tox>>
TamperPub == /\ ph = "published"
             /\ \E i \in DOMAIN pub, v \in {0, 1, 7} : v # pub[i] /\ pub' = [pub EXCEPT ![i] = v]
             /\ ph' = "tampered" /\ UNCHANGED <<k, tox, wit, pf>>
TamperProof == /\ ph = "published"
               /\ \E f \in {"a", "b", "c"} : pf' = [pf EXCEPT ![f] = (@ + 1) % P]
               /\ ph' = "forged" /\ UNCHANGED <<k, tox, wit, pub>>
Arity == /\ ph = "published" /\ pub' \in {Append(pub, 0)} \cup (IF pub = <<>> THEN {} ELSE {Tail(pub)})
         /\ ph' = "arity" /\ UNCHANGED <<k, tox, wit, pf>>
Next == ProveStep \/ CheatStep \/ TamperPub \/ TamperProof \/ Arity
Spec == Init /\ [][Next]_vars

Vk == Crs(P, G, C, tox)
Out == Verify(P, Vk, pf, pub)
CatalogueSane == \A w \in Cat[k].good : Satisfied(P, C, w[1], w[2])
CheatsAreUnsat == \A w \in Cat[k].bad : ~Satisfied(P, C, w[1], w[2])
Completeness == ph = "published" => Out = "ok"
InputsBound == ph = "tampered" => Out = "InvalidProof"
(* Changing c alone, or a (b) when b (a) is not zero, invalidates a proof. *)
ProofBound == (ph = "forged" /\ pf.a # 0 /\ pf.b # 0 /\ pf.a # 1 /\ pf.b # 1) => Out = "InvalidProof"
ArityChecked == ph = "arity" => Out = "InvalidVerifyingKey"
(* Blinding: the same set of proofs for every witness of a statement. *)
ZeroKnowledge ==
  ph = "setup" /\ GenErrors(P, G, C, tox) = {} /\ ~Accident(P, G, C, tox) /\ Rands = 0..(P - 1) =>
    \A w1, w2 \in Cat[k].good :
      w1[1] = w2[1] =>
        {Prove(P, G, C, tox, w1[1], w1[2], r, s) : r \in Rands, s \in Rands}
          = {Prove(P, G, C, tox, w2[1], w2[2], r, s) : r \in Rands, s \in Rands}

ToxQuick == [g1 : {3}, g2 : {2}, alpha : {6}, beta : {5}, gamma : {3}, delta : {4}, tau : 1..16]
ToxDeep == [g1 : {1, 3}, g2 : {2, 1}, alpha : {1, 6, 11}, beta : {5, 1, 9}, gamma : {3, 1, 16}, delta : {4, 2, 16}, tau : 1..16]
RandsQuick == {0, 1, 5}
RandsZk == 0..16
ToxZkQuick == [g1 : {3}, g2 : {2}, alpha : {6}, beta : {5}, gamma : {3}, delta : {4}, tau : {3}]
ToxZk == [g1 : {3}, g2 : {2}, alpha : {6}, beta : {5}, gamma : {3}, delta : {4, 7}, tau : 3..7]
=============================================================================
