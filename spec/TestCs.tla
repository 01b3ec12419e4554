------------------------------- MODULE TestCs -------------------------------
(* The test constraint system: a state and what each call does to it.        *)
(* Variables are <<kind, index>> with kind 0 for inputs (index 0 is ONE) and *)
(* 1 for auxiliary ones; combinations are lists of <<kind, index, c>>.       *)
(*  <<"alloc"|"input", name, value>>   value -1: the closure has none        *)
(*  <<"enf", name, a, b, c>>           <<"push", name>>   <<"pop">>          *)
(*  <<"set", path, value>>  <<"get", path>>  <<"getin", index, path>>        *)
(*  <<"verify", values>>                                                     *)
(* A call that is misuse is refused (the system panics).                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* Names with a slash are no segments. *)
Malformed == {"x/y", "/", "a/"}
Start == [ns |-> <<>>, objs |-> [x \in {"ONE"} |-> <<"i", 0>>], inp |-> <<<<1, "ONE">>>>, aux |-> <<>>, cons |-> <<>>]
RECURSIVE Joined(_, _)
Joined(ns, name) == IF ns = <<>> THEN name ELSE Head(ns) \o "/" \o Joined(Tail(ns), name)
Path(st, name) == Joined(st.ns, name)
Fresh(st, name) == name \notin Malformed /\ Path(st, name) \notin DOMAIN st.objs
Named(st, name, o) == (Path(st, name) :> o) @@ st.objs
IsVar(st, path) == path \in DOMAIN st.objs /\ st.objs[path][1] \in {"i", "a"}
ValueOf(st, o) == IF o[1] = "i" THEN st.inp[o[2] + 1][1] ELSE st.aux[o[2] + 1][1]
Ok(st) == [st |-> st, refused |-> FALSE, err |-> "", v |-> -1]
OkV(st, v) == [st |-> st, refused |-> FALSE, err |-> "", v |-> v]
No(st) == [st |-> st, refused |-> TRUE, err |-> "", v |-> -1]
Missing(st) == [st |-> st, refused |-> FALSE, err |-> "AssignmentMissing", v |-> -1]
Do(st, op) ==
  CASE op[1] = "alloc" -> IF op[2] \in Malformed THEN No(st)
                          ELSE IF op[3] = -1 THEN Missing(st)   \* nothing is left behind
                          ELSE IF ~Fresh(st, op[2]) THEN No(st)
                          ELSE Ok([st EXCEPT !.aux = Append(@, <<op[3], Path(st, op[2])>>), !.objs = Named(st, op[2], <<"a", Len(st.aux)>>)])
    [] op[1] = "input" -> IF op[2] \in Malformed THEN No(st)
                          ELSE IF op[3] = -1 THEN Missing(st)
                          ELSE IF ~Fresh(st, op[2]) THEN No(st)
                          ELSE Ok([st EXCEPT !.inp = Append(@, <<op[3], Path(st, op[2])>>), !.objs = Named(st, op[2], <<"i", Len(st.inp)>>)])
    [] op[1] = "enf" -> IF ~Fresh(st, op[2]) THEN No(st)
                        ELSE Ok([st EXCEPT !.cons = Append(@, <<op[3], op[4], op[5], Path(st, op[2])>>), !.objs = Named(st, op[2], <<"c", 0>>)])
    [] op[1] = "push" -> IF ~Fresh(st, op[2]) THEN No(st)
                         ELSE Ok([st EXCEPT !.ns = Append(@, op[2]), !.objs = Named(st, op[2], <<"n", 0>>)])
    [] op[1] = "pop" -> IF st.ns = <<>> THEN No(st) ELSE Ok([st EXCEPT !.ns = SubSeq(@, 1, Len(@) - 1)])
    [] op[1] = "set" -> IF ~IsVar(st, op[2]) THEN No(st)
                        ELSE LET o == st.objs[op[2]] IN
                             Ok(IF o[1] = "i" THEN [st EXCEPT !.inp[o[2] + 1][1] = op[3]] ELSE [st EXCEPT !.aux[o[2] + 1][1] = op[3]])
    [] op[1] = "get" -> IF ~IsVar(st, op[2]) THEN No(st) ELSE OkV(st, ValueOf(st, st.objs[op[2]]))
    [] op[1] = "getin" -> IF op[2] + 1 \notin DOMAIN st.inp \/ (op[2] + 1 \in DOMAIN st.inp /\ st.inp[op[2] + 1][2] # op[3]) THEN No(st)
                          ELSE OkV(st, st.inp[op[2] + 1][1])
    [] op[1] = "verify" -> IF Len(op[2]) + 1 # Len(st.inp) THEN No(st)
                           ELSE OkV(st, IF \A i \in DOMAIN op[2] : st.inp[i + 1][1] = op[2][i] THEN 1 ELSE 0)
(* ---- satisfaction ---- *)
RECURSIVE EvalR(_, _, _, _, _)
EvalR(q, st, lc, i, acc) ==
  IF i > Len(lc) THEN acc
  ELSE LET x == lc[i] v == IF x[1] = 0 THEN st.inp[x[2] + 1][1] ELSE st.aux[x[2] + 1][1]
       IN EvalR(q, st, lc, i + 1, (acc + (((x[3] % q) * v) % q)) % q)
Eval(q, st, lc) == EvalR(q, st, lc, 1, 0)
Holds(q, st, c) == (Eval(q, st, c[1]) * Eval(q, st, c[2])) % q = Eval(q, st, c[3])
Broken(q, st) == {i \in DOMAIN st.cons : ~Holds(q, st, st.cons[i])}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
FirstBroken(q, st) == LET b == Broken(q, st) IN IF b = {} THEN <<>> ELSE <<st.cons[Least(b)][4]>>
(* ---- what the hash is a function of ---- *)
Coef(q, lc, v) == LET RECURSIVE C(_, _)
                      C(i, acc) == IF i > Len(lc) THEN acc
                                   ELSE C(i + 1, IF <<lc[i][1], lc[i][2]>> = v THEN (acc + lc[i][3]) % q ELSE acc)
                  IN C(1, 0)
Canon(q, lc) == {<<v, Coef(q, lc, v)>> : v \in {u \in {<<lc[i][1], lc[i][2]>> : i \in DOMAIN lc} : Coef(q, lc, u) # 0}}
Shape(q, st) == <<Len(st.inp), Len(st.aux), [i \in DOMAIN st.cons |-> <<Canon(q, st.cons[i][1]), Canon(q, st.cons[i][2]), Canon(q, st.cons[i][3])>>]>>
=============================================================================
