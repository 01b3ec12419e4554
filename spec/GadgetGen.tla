----------------------------- MODULE GadgetGen -----------------------------
(* Generates gadget programs: a prefix that provides operands of every kind  *)
(* (allocated, negated, constant), then calls with all choices of operands,  *)
(* repeated ones included. ty holds the types of the registers.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Family, Max, Sim
VARIABLES prog, ty
vars == <<prog, ty>>
Bits3 == <<<<"bit">>, <<"bit">>, <<"bit">>>>
Prefix ==
  CASE Family = "bool" -> [p |-> Bits3 \o <<<<"const", 0>>, <<"const", 1>>, <<"not", 1>>>>, ty |-> <<"a", "a", "a", "b", "b", "b">>]
    [] Family = "num" -> [p |-> <<<<"num">>, <<"num">>, <<"bit">>, <<"const", 0>>, <<"const", 1>>, <<"not", 3>>>>,
                          ty |-> <<"n", "n", "a", "b", "b", "b">>]
    [] Family = "bits" -> [p |-> <<<<"num">>>>, ty |-> <<"n">>]
    [] Family \in {"look", "pack"} -> [p |-> Bits3 \o <<<<"const", 0>>, <<"const", 1>>, <<"not", 1>>>>, ty |-> <<"a", "a", "a", "b", "b", "b">>]
    [] Family = "meq" -> [p |-> Bits3 \o <<<<"bit">>, <<"bit">>, <<"not", 1>>, <<"const", 1>>>>,
                          ty |-> <<"a", "a", "a", "a", "a", "b", "b">>]
N0 == Len(Prefix.p)
Init == prog = Prefix.p /\ ty = Prefix.ty
Of(S) == {i \in DOMAIN ty : ty[i] \in S}
A == Of({"a"})
B == Of({"a", "b"})
N == Of({"n"})
(* When simulating, choices are drawn instead of enumerated. *)
Pick(S) == RandomElement(S)
From(S) == IF Sim THEN {Pick(S)} ELSE S
Do(ins, tt) == prog' = Append(prog, ins) /\ ty' = ty \o tt
BoolOp ==
  \/ \E r \in From(B) : Do(<<"not", r>>, <<"b">>)
  \/ \E op \in {"xor", "and"}, r \in From(B), s \in From(B) : Do(<<op, r, s>>, <<"b">>)
  \/ \E r \in From(B), s \in From(B) : Do(<<"eq", r, s>>, <<>>)
  \/ \E op \in {"ch", "maj"}, r \in From(B), s \in From(B), u \in From(B) : Do(<<op, r, s, u>>, <<"b">>)
  \/ \E op \in {"axor", "aand", "aandnot", "anor"}, r \in From(A), s \in From(A) : Do(<<op, r, s>>, <<"a">>)
  \/ \E r \in From(A) : Do(<<"bitc", r>>, <<"a">>)
NumOp ==
  \/ \E r \in From(N), s \in From(N) : Do(<<"mul", r, s>>, <<"n">>)
  \/ \E r \in From(N) : Do(<<"sq", r>>, <<"n">>)
  \/ \E r \in From(N) : Do(<<"nz", r>>, <<>>)
  \/ \E r \in From(N) : Do(<<"inp", r>>, <<"i">>)
  \/ \E r \in From(N), s \in From(N), c \in From(B) : Do(<<"rev", r, s, c>>, <<"n", "n">>)
  \/ \E r \in From(N \cup {0}) : Do(<<"lin", r>>, <<"m">>)
  \/ \E r \in From(N \cup {0}), b \in From(B) : Do(<<"lin", r, b>>, <<"m">>)
  \/ \E r \in From(N \cup {0}), b \in From(B), c \in From(B) : Do(<<"lin", r, b, c>>, <<"m">>)
(* Decompositions: their results are not used further (the number of bits depends on the field). *)
BitsOp == \E op \in {"bits", "sbits"}, r \in N : Do(<<op, r>>, <<>>)
BitsMore == \/ BitsOp
            \/ \E op \in {"fbits", "fbool"} : Do(<<op>>, <<>>)
LookOp == \E op \in {"look", "slook"}, r \in B, s \in B, u \in B :
            \E k \in (IF r = 1 /\ s = 2 /\ u = 3 THEN 0..8 ELSE {0}) : Do(<<op, r, s, u, k>>, <<"x">>)
(* One packing call; the length is chosen so that several inputs arise. *)
PackOp == IF Len(prog) > N0 /\ prog[Len(prog)][1] = "pack" /\ Len(prog[Len(prog)]) - 1 < Max
          THEN \E r \in From(B) : prog' = [prog EXCEPT ![Len(prog)] = Append(@, r)] /\ UNCHANGED ty
          ELSE Len(prog) = N0 /\ Do(<<"pack">>, <<>>)
(* One accumulator with up to Max equalities. Each side is a sum of bits with shifts. *)
Terms(w) == {<<r, s>> : r \in B, s \in 0..(w - 1)}
Side(w) == {<<>>} \cup {<<x>> : x \in Terms(w)} \cup
           (IF w < 2 THEN {} ELSE {<<x, y>> : x \in Terms(w - 1), y \in Terms(w - 1)}) \cup
           (IF w < 3 THEN {} ELSE {<<x, y, z>> : x \in Terms(w - 2), y \in Terms(w - 2), z \in Terms(1)})
MeqOp == IF Len(prog) > N0
         THEN /\ Len(prog[Len(prog)]) - 1 < Max
              /\ \E w \in {Pick(1..4)} : \E a \in {Pick(Side(w))}, b \in {Pick(Side(w))}, x \in {Pick(0..2)} :
                   prog' = [prog EXCEPT ![Len(prog)] = Append(@, <<w + (IF w < 3 THEN x ELSE 0), a, b>>)] /\ UNCHANGED ty
         ELSE Do(<<"meq">>, <<>>)
Ops == Len(prog) - N0
Next ==
  CASE Family = "bool" -> Ops < Max /\ BoolOp
    [] Family = "num" -> Ops < Max /\ NumOp
    [] Family = "bits" -> Ops < Max /\ (BitsMore \/ \E r \in N : Do(<<"sq", r>>, <<"n">>))
    [] Family = "look" -> Ops < 1 /\ LookOp
    [] Family = "pack" -> PackOp
    [] Family = "meq" -> MeqOp
Spec == Init /\ [][Next]_vars
Complete == CASE Family \in {"bool", "num"} -> Ops = Max
              [] Family = "bits" -> Ops > 0 /\ \E i \in DOMAIN prog : prog[i][1] \in {"bits", "sbits", "fbits", "fbool"}
              [] Family = "look" -> Ops = 1
              [] Family = "pack" -> Ops = 1
              [] Family = "meq" -> Ops = 1 /\ Len(prog[Len(prog)]) > 1
Emit == Complete => PrintT(ToJson(prog))
(* Every operand refers to an earlier register. *)
WellFormed == Len(prog) >= N0 /\ Len(ty) >= Len(Prefix.ty)
=============================================================================
