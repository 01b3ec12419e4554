------------------------------- MODULE TcsGen -------------------------------
(* Generates histories of the test constraint system, driven by its          *)
(* specification so that most calls are legal ones.                          *)
(*  small: all histories of Max calls from a small pool, after a prefix      *)
(*  sim:   simulated longer ones                                             *)
EXTENDS TestCs, Json
CONSTANTS Family, Max, Q
VARIABLES hist, st, dead
vars == <<hist, st, dead>>
One == <<<<0, 0, 1>>>>
Prefix == <<<<"alloc", "a", 3>>, <<"push", "n">>, <<"input", "a", 4>>, <<"enf", "c", <<<<1, 0, 1>>>>, <<<<0, 1, 1>>>>, <<<<0, 0, 12>>>>>>, <<"pop">>>>
RECURSIVE After(_, _)
After(s, ops) == IF ops = <<>> THEN s ELSE After(Do(s, Head(ops)).st, Tail(ops))
Init == /\ hist = IF Family = "small" THEN Prefix ELSE <<>>
        /\ st = After(Start, IF Family = "small" THEN Prefix ELSE <<>>)
        /\ dead = FALSE
Call(op) == LET r == TLCEval(Do(st, op)) IN hist' = Append(hist, op) /\ st' = r.st /\ dead' = r.refused
(* Small pool. *)
Names == {"a", "n", "c", "ONE", "x/y", ""}
Paths == {"a", "n", "n/a", "n/c", "c", "ONE", "n/n/a", ""}
Small ==
  \/ \E nm \in Names, v \in {3, -1} : Call(<<"alloc", nm, v>>)
  \/ \E nm \in Names, v \in {4, -1} : Call(<<"input", nm, v>>)
  \/ \E nm \in Names : Call(<<"enf", nm, <<<<1, 0, 1>>>>, One, <<<<0, 1, 1>>, <<0, 0, 12>>>>>>)
  \/ \E nm \in Names : Call(<<"push", nm>>)
  \/ Call(<<"pop">>)
  \/ \E p \in Paths, v \in {0, 12} : Call(<<"set", p, v>>)
  \/ \E p \in Paths : Call(<<"get", p>>)
  \/ \E i \in 0..2, p \in {"a", "n/a", "ONE"} : Call(<<"getin", i, p>>)
  \/ \E s \in {<<>>, <<4>>, <<5>>, <<4, 4>>, <<4, 5>>} : Call(<<"verify", s>>)
(* Larger ones. *)
Pool == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "ONE", "">>
Name == IF RandomElement(1..60) = 1 THEN RandomElement(Malformed)
        ELSE IF RandomElement(1..25) = 1 THEN Pool[RandomElement(1..Len(Pool))]
        ELSE LET f == {i \in 1..Len(Pool) : Fresh(st, Pool[i])} IN IF f = {} THEN "z" ELSE Pool[RandomElement(f)]
VarPaths == {p \in DOMAIN st.objs : IsVar(st, p)}
PathOf == IF RandomElement(1..20) = 1 THEN RandomElement(DOMAIN st.objs \cup {"a", "b/a", "/", "a/"}) ELSE RandomElement(VarPaths)
Term == LET k == IF st.aux = <<>> THEN 0 ELSE RandomElement(0..1)
        IN <<k, RandomElement(0..((IF k = 0 THEN Len(st.inp) ELSE Len(st.aux)) - 1)), RandomElement({1, 1, Q - 1, 0, 2, Q - 2, RandomElement(0..(Q - 1))})>>
Lc == [i \in 1..RandomElement(0..3) |-> Term]
Val == RandomElement(0..(Q - 1))
(* A constraint that holds: its right side is a multiple of ONE, unless ONE was changed. *)
Sound(a, b) == <<<<0, 0, (Eval(Q, st, a) * Eval(Q, st, b)) % Q>>>>
Sim ==
  \/ \E nm \in {Name}, v \in {IF RandomElement(1..8) = 1 THEN -1 ELSE Val} : Call(<<"alloc", nm, v>>)
  \/ \E nm \in {Name}, v \in {IF RandomElement(1..8) = 1 THEN -1 ELSE Val} : Call(<<"input", nm, v>>)
  \/ \E nm \in {Name}, a \in {Lc}, b \in {Lc}, c \in {Lc} : Call(<<"enf", nm, a, b, IF RandomElement(1..4) = 1 THEN c ELSE Sound(a, b)>>)
  \/ \E nm \in {Name} : Call(<<"push", nm>>)
  \/ st.ns # <<>> /\ Call(<<"pop">>)
  \/ RandomElement(1..40) = 1 /\ Call(<<"pop">>)
  \/ \E p \in {PathOf}, v \in {Val} : Call(<<"set", p, v>>)
  \/ \E p \in {PathOf} : Call(<<"get", p>>)
  \/ \E i \in {RandomElement(1..Len(st.inp))} : Call(<<"getin", i - 1, IF RandomElement(1..15) = 1 THEN PathOf ELSE st.inp[i][2]>>)
  \/ RandomElement(1..40) = 1 /\ Call(<<"getin", Len(st.inp), "a">>)
  \/ \E k \in {RandomElement(1..12)} :
       LET right == [i \in 1..(Len(st.inp) - 1) |-> st.inp[i + 1][1]]
       IN Call(<<"verify", CASE k = 1 -> Append(right, 0)
                             [] k = 2 /\ right # <<>> -> Tail(right)
                             [] k \in 3..6 /\ right # <<>> -> [right EXCEPT ![RandomElement(DOMAIN right)] = (@ + 1) % Q]
                             [] k = 7 /\ right # <<>> -> [right EXCEPT ![Len(right)] = (@ + 1) % Q]
                             [] OTHER -> right>>)
N0 == IF Family = "small" THEN Len(Prefix) ELSE 0
Next == ~dead /\ Len(hist) < Max + N0 /\ IF Family = "small" THEN Small ELSE Sim
Spec == Init /\ [][Next]_vars
Emit == (dead \/ Len(hist) = Max + N0) => PrintT(ToJson(hist))
=============================================================================
