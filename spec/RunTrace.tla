----------------------------- MODULE RunTrace ------------------------------
(* Recorded syntheses of gadget programs: with every value, with missing     *)
(* values (strictly, as the prover asks for them, or leniently), as part of  *)
(* a proof, and with errors raised by the circuit.                           *)
EXTENDS Gadgets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
K == Cases[t]
P == K.p
Init == t \in DOMAIN Cases /\ l = 0
Next == l <= Len(K.runs) /\ K.panic = 0 /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
RECURSIVE ValR(_, _, _, _)
ValR(lc, w, i, acc) == IF i = 0 THEN acc ELSE ValR(lc, w, i - 1, (acc + lc[i][2] * w[lc[i][1]]) % P)
Val(lc, w) == ValR(lc, w, Len(lc), 0)
Sat(w) == \A i \in DOMAIN K.cons : LET c == K.cons[i] IN (Val(c[1], w) * Val(c[2], w)) % P = Val(c[3], w)
Off(k) == K.off[k] - 1
Num(k) == (IF k = Len(K.off) THEN Len(K.regs) ELSE K.off[k + 1] - 1) - Off(k)
(* Index of the k-th call among the allocating ones. *)
FreeIx(k) == Cardinality({j \in 1..k : K.prog[j][1] \in Free})
Absent(k, r) == IF K.prog[k][1] = "ubits" THEN r.free[FreeIx(k)] = <<>> ELSE r.free[FreeIx(k)] = -1
(* The allocated value is the one that was given. *)
Given(k, r) ==
  LET f == r.free[FreeIx(k)] o == Off(k) IN
  CASE K.prog[k][1] \in {"bit", "bitc", "num"} -> r.got[o + 1] = f
    [] K.prog[k][1] \in {"fbits", "fbool"} -> \A i \in 1..Num(k) : r.got[o + i] = BitOf(f, i)
    [] K.prog[k][1] = "ubits" -> \A i \in 1..Num(k) : r.got[o + i] = f[i]
Right(k, r) == /\ Holds(P, K.cap, K.prog[k], r.got, Off(k), Num(k))
               /\ K.prog[k][1] \in Free => Given(k, r)
               \* decompositions give the true bits of the witness
               /\ K.prog[k][1] = "bits" => \A i \in 1..Num(k) : r.got[Off(k) + i] = BitOf(r.got[K.prog[k][2]], i)
(* Shape synthesis fails only for constants that contradict each other. *)
ConstEq(k) == /\ K.prog[k][1] = "eq" /\ LET a == K.regs[K.prog[k][2]] b == K.regs[K.prog[k][3]]
                                       IN (\A i \in DOMAIN a : a[i][1] = 1) /\ (\A i \in DOMAIN b : b[i][1] = 1)
                                          /\ Val(a, <<1>>) # Val(b, <<1>>)
ShapeRight == /\ K.panic = 0
              /\ K.err = "" \/ (K.err = "Unsatisfiable" /\ ConstEq(K.ek))
              /\ K.ns
(* A run with all values. *)
FullRight(r) ==
  IF r.err = ""
  THEN /\ K.err = "" /\ r.same
       /\ \A i \in DOMAIN r.got : r.got[i] # -1 /\ r.got[i] = Val(K.regs[i], r.w) /\ (3 * r.got[i]) % P = Val(K.regs3[i], r.w)
       /\ LET legal == \A k \in DOMAIN K.prog : Restricts(K.prog[k]) => Holds(P, K.cap, K.prog[k], r.got, Off(k), Num(k))
              sat == Sat(r.w)
          IN /\ sat <=> legal
             /\ \A k \in DOMAIN K.prog : Right(k, r) \/ (Restricts(K.prog[k]) /\ (K.prog[k][1] = "bitc" => Given(k, r)))
             /\ r.tn = Len(K.cons) /\ r.ts = (IF sat THEN 1 ELSE 0)
  ELSE \/ r.err = "Unsatisfiable" /\ K.err = "Unsatisfiable" /\ K.ek = r.ek
       \/ r.err = "DivisionByZero" /\ K.prog[r.ek][1] = "nz" /\ r.got[K.prog[r.ek][2]] = 0
(* A run in which some free values are missing. Registers that have a value  *)
(* although an operand is missing must have it whatever the missing one is.  *)
Regs(k) == (Off(k) + 1)..(Off(k) + Num(k))
Known(r, i) == i <= Len(r.got) /\ r.got[i] # -1
Const(i) == \A j \in DOMAIN K.regs[i] : K.regs[i][j][1] = 1
(* Values that registers can have. *)
Poss(r, i) == IF Known(r, i) THEN {r.got[i]} ELSE {0, 1}
BitOp(ins) == ins[1] \in {"axor", "aand", "aandnot", "anor", "not", "xor", "and", "ch", "maj"}
OpVal(op, a, b, c) ==
  CASE op \in {"axor", "xor"} -> Xor(a, b) [] op \in {"aand", "and"} -> And(a, b)
    [] op = "aandnot" -> And(a, Not(b)) [] op = "anor" -> And(Not(a), Not(b))
    [] op = "not" -> Not(a) [] op = "ch" -> Ch(a, b, c) [] op = "maj" -> Maj(a, b, c)
OpArg(ins, i) == IF i < Len(ins) THEN ins[i + 1] ELSE ins[2]
(* The registers an operation really depends on. *)
MadeUp(k, r) ==
  LET ins == K.prog[k] IN
  IF K.prog[k][1] \in Free THEN Absent(k, r) /\ \E i \in Regs(k) : Known(r, i)
  ELSE IF BitOp(ins)
  THEN /\ Known(r, Off(k) + 1)
       /\ \E x \in Poss(r, OpArg(ins, 1)), y \in Poss(r, OpArg(ins, 2)), z \in Poss(r, OpArg(ins, 3)) :
            /\ ins[2] = OpArg(ins, 2) => x = y
            /\ ins[2] = OpArg(ins, 3) => x = z
            /\ OpArg(ins, 2) = OpArg(ins, 3) => y = z
            /\ OpVal(ins[1], x, y, z) # r.got[Off(k) + 1]
  ELSE IF \A i \in Uses(ins) : Known(r, i)
  THEN ~Holds(P, K.cap, ins, [i \in DOMAIN K.regs |-> IF Known(r, i) THEN r.got[i] ELSE 0], Off(k), Num(k)) /\ ~Restricts(ins)
  ELSE CASE ins[1] \in {"look", "slook"} ->
              \E i \in Regs(k) : Known(r, i) /\
                \E x \in Poss(r, ins[2]), y \in Poss(r, ins[3]), z \in Poss(r, ins[4]) :
                  LET e == ins[5][1 + x + 2 * y + IF ins[1] = "look" THEN 4 * z ELSE 0]
                      want == IF i = Off(k) + 1 THEN e[1] ELSE IF ins[1] = "slook" /\ z = 1 THEN (P - e[2]) % P ELSE e[2]
                  IN want # r.got[i]
         [] ins[1] = "rev" -> \E i \in Regs(k) : Known(r, i) /\
               ~(Known(r, ins[4]) /\ r.got[i] = LET j == IF r.got[ins[4]] = i - Off(k) - 1 THEN ins[2] ELSE ins[3]
                                                IN IF Known(r, j) THEN r.got[j] ELSE -2)
         [] ins[1] \in {"mul", "sq"} -> Known(r, Off(k) + 1) /\
               ~(r.got[Off(k) + 1] = 0 /\ \E i \in Uses(ins) : Known(r, i) /\ r.got[i] = 0)
         [] ins[1] = "lin" -> Known(r, Off(k) + 1) /\
               (\E j \in 3..Len(ins) : ~Known(r, ins[j][1]) /\ ins[j][2] # 0)
         [] ins[1] \in {"wrot", "wshr"} -> FALSE
         [] ins[1] = "pack" -> \E j \in 1..Num(k) : Known(r, Off(k) + j) /\
               LET here == [i \in 1..(IF j = Num(k) THEN Len(ins) - 1 - (j - 1) * K.cap ELSE K.cap) |-> ins[1 + (j - 1) * K.cap + i]]
               IN \/ \E i \in DOMAIN here : ~Known(r, here[i])
                  \/ r.got[Off(k) + j] # Weigh(P, [i \in DOMAIN here |-> r.got[here[i]]])
         [] OTHER -> \E i \in Regs(k) : Known(r, i)
(* Strictly (as in proving) a call that needs a missing value must say so.   *)
NeedsMissing(k, r) == \E i \in Uses(K.prog[k]) : ~Known(r, i)
Stopped(r) == IF r.err = "" THEN Len(K.prog) + 1 ELSE r.ek
(* What allocated variables carry: none may have been assigned a value in the *)
(* strict mode that the missing one decides; it is enough to look at the      *)
(* registers, which the calls report, and the variables behind them.          *)
Silent(k, r) == \E i \in Regs(k) :
                  /\ i <= Len(r.got) /\ ~Known(r, i)
                  /\ \A j \in DOMAIN K.regs[i] : r.w[K.regs[i][j][1]] # -1
MissRight(r) ==
  /\ r.err \in {"", "AssignmentMissing", "Unsatisfiable", "DivisionByZero"}
  /\ r.err = "Unsatisfiable" => K.err = r.err /\ K.ek = r.ek
  /\ r.err = "" => r.same
  /\ r.err = "DivisionByZero" => K.prog[r.ek][1] = "nz" /\ Known(r, K.prog[r.ek][2]) /\ r.got[K.prog[r.ek][2]] = 0
  /\ \A k \in DOMAIN K.prog : k < Stopped(r) => ~MadeUp(k, r) /\ ~Silent(k, r)
  /\ r.err = "AssignmentMissing" => ~r.len /\ NeedsMissing(r.ek, r)
EndRight == \A i \in DOMAIN K.e2e : K.e2e[i] = "ok"
InjRight == \A i \in DOMAIN K.inj : LET j == K.inj[i] IN
              /\ j.prv = j.want
              /\ j.what = "raise" => j.gen = j.want
              \* generating parameters asks for no value; it can only fail by its own secrets
              /\ j.what = "value" => /\ j.gen \in {"ok", "UnexpectedIdentity", "UnconstrainedVariable"}
                                     /\ j.asked = 0
(* The three properties that recorded syntheses decide. *)
Here == l \in 1..Len(K.runs)
AtEnd == K.panic = 0 /\ l = Len(K.runs) + 1
NoPanic == K.panic = 0 /\ (Here => K.runs[l].err # "panic")
(* Values and satisfaction, with all free values given. *)
ValuesRight == NoPanic /\ (l = 0 => ShapeRight) /\ ((Here /\ K.runs[l].full) => FullRight(K.runs[l]))
(* The shape does not depend on the witness, and keys fit the proofs. *)
ShapeSame == /\ NoPanic /\ (l = 0 => ShapeRight)
             /\ Here => /\ K.runs[l].same
                        /\ K.runs[l].tn \in {-1, Len(K.cons)}
                        /\ (K.runs[l].full /\ K.runs[l].err = "") => K.err = ""
             /\ AtEnd => EndRight
(* Missing values and raised errors. *)
MissingRight == /\ NoPanic /\ (l = 0 => ShapeRight)
                /\ (Here /\ ~K.runs[l].full) => MissRight(K.runs[l])
                /\ AtEnd => InjRight
=============================================================================
