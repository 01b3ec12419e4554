----------------------------- MODULE SatTrace ------------------------------
(* Explores every assignment of the variables of a recorded constraint       *)
(* system, one variable at a time; a branch ends as soon as a constraint     *)
(* whose variables are all assigned fails. Every complete assignment must    *)
(* give the registers values that the meaning of the gadgets allows: the     *)
(* results are forced by the operands.                                       *)
EXTENDS Gadgets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, asg
vars == <<t, asg>>
K == Cases[t]
P == K.p
RECURSIVE ValR(_, _, _, _)
ValR(lc, w, i, acc) == IF i = 0 THEN acc ELSE ValR(lc, w, i - 1, (acc + lc[i][2] * w[lc[i][1]]) % P)
Val(lc, w) == ValR(lc, w, Len(lc), 0)
(* lc as c0 + c1 * (the variable x that comes next) *)
RECURSIVE SplitR(_, _, _, _, _, _)
SplitR(lc, w, x, i, c0, c1) ==
  IF i = 0 THEN <<c0, c1>>
  ELSE IF lc[i][1] = x THEN SplitR(lc, w, x, i - 1, c0, (c1 + lc[i][2]) % P)
  ELSE SplitR(lc, w, x, i - 1, (c0 + lc[i][2] * w[lc[i][1]]) % P, c1)
Split(lc, w) == SplitR(lc, w, Len(w) + 1, Len(lc), 0, 0)
At(s, v) == (s[1] + s[2] * v) % P
Root(s) == (P - ((s[1] * FInv(P, s[2])) % P)) % P
(* Solutions of c0 + c1 x = 0 *)
Solve(c0, c1) == IF c1 # 0 THEN {Root(<<c0, c1>>)} ELSE IF c0 = 0 THEN 0..(P - 1) ELSE {}
Free1(s) == s[1] = 0 /\ s[2] = 0
(* Solutions of a * b = c for split combinations. *)
Solutions(a, b, c) ==
  IF b[2] = 0 THEN Solve((a[1] * b[1] + (P - c[1])) % P, (a[2] * b[1] + (P - c[2])) % P)
  ELSE IF a[2] = 0 THEN Solve((a[1] * b[1] + (P - c[1])) % P, (a[1] * b[2] + (P - c[2])) % P)
  ELSE IF Free1(c) THEN {Root(a), Root(b)}
  ELSE {x \in 0..(P - 1) : (At(a, x) * At(b, x)) % P = At(c, x)}
SplitC(i, w) == LET c == K.cons[i] IN <<Split(c[1], w), Split(c[2], w), Split(c[3], w)>>
Test(s, x) == (At(s[1], x) * At(s[2], x)) % P = At(s[3], x)
Range1(q) == {q[i] : i \in DOMAIN q}
(* Values of the next variable that break none of the constraints now complete. *)
Candidates(w) ==
  LET at == K.at[Len(w) + 1] IN
  IF at = <<>> THEN Range1(K.dom)
  ELSE LET ss == [i \in DOMAIN at |-> SplitC(at[i], w)]
           s1 == ss[1]
           sol == Solutions(s1[1], s1[2], s1[3])
           cut == IF Cardinality(sol) > 64 THEN sol \cap Range1(K.dom) ELSE sol
       IN {x \in cut : \A i \in 2..Len(ss) : Test(ss[i], x)}
Ground == \A i \in Range1(K.at[1]) : LET c == K.cons[i] IN (Val(c[1], <<1>>) * Val(c[2], <<1>>)) % P = Val(c[3], <<1>>)
Init == t \in {i \in DOMAIN Cases : Cases[i].panic = 0 /\ Cases[i].err = ""} /\ asg = <<1>>
Next == /\ Len(asg) < K.nv
        /\ Len(asg) = 1 => Ground
        /\ \E x \in Candidates(asg) : asg' = Append(asg, x)
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Meaning(V) == \A k \in DOMAIN K.prog :
                LET o == K.off[k] - 1
                    n == (IF k = Len(K.prog) THEN Len(K.regs) ELSE K.off[k + 1] - 1) - o
                IN Holds(P, K.cap, K.prog[k], V, o, n)
Forced == (Len(asg) = K.nv /\ (Len(asg) = 1 => Ground)) =>
            LET V == TLCEval([i \in DOMAIN K.regs |-> Val(K.regs[i], asg)])
            IN /\ Meaning(V)
               /\ \A i \in DOMAIN K.regs : Val(K.regs3[i], asg) = (3 * V[i]) % P
=============================================================================
