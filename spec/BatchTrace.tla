----------------------------- MODULE BatchTrace -----------------------------
(* Recorded batch verifications. An item is wrong iff it fails on its own;     *)
(* over the small field the specification decides that itself.                *)
EXTENDS Groth16, Json, IOUtils, FiniteSets
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Init == t \in DOMAIN Cases /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, l>>
K == Cases[t]
Oks(s) == Len(SelectSeq(s, LAMBDA x : x = "ok"))
Singles == [i \in DOMAIN K.single |->
              IF K.p = 0 THEN K.single[i] ELSE Verify(K.p, K.vk, K.items[i].pf, K.items[i].pub)]
Errs == {"InvalidProof", "InvalidVerifyingKey"}
Agrees ==
  l = 0 \/
  LET s == TLCEval(Singles)
      bad == {i \in DOMAIN s : s[i] # "ok"}
      count == \E i \in DOMAIN s : s[i] = "InvalidVerifyingKey"
      all == K.runs \o K.scripted \o K.pars
  IN /\ s = K.single
     /\ IF bad = {} THEN Oks(all) = Len(all)
        ELSE /\ \A i \in DOMAIN all : all[i] = "ok" \/ all[i] \in Errs
             /\ (count \/ Cardinality(bad) = 1) => Oks(all) = 0
             \* over the field of 40961 elements a cancellation by chance is possible
             /\ IF K.p = 0 THEN Oks(all) = 0 ELSE Oks(K.runs) <= 1 /\ Oks(K.pars) <= 2 /\ Oks(K.scripted) <= 1
=============================================================================
