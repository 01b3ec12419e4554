----------------------------- MODULE CertTrace -----------------------------
(* Checks certificates that the free bits of a large boolean constraint      *)
(* system (words, a hash circuit) determine all other variables, whatever    *)
(* their values. Every constraint is one step. bpos[v] is the step that      *)
(* forces v to be 0 or 1; dstep[v] the step by which v is a function of      *)
(* variables of smaller rank[v] (free variables have rank 0). Kinds:         *)
(*  b  the constraint is a multiple of v(v-1) = 0                            *)
(*  f  for all boolean values of the other variables (that satisfy the other *)
(*     constraints named in the step) exactly one value of the new one       *)
(*     satisfies it, 0 or 1                                                  *)
(*  m  a sum of boolean terms equals a number whose binary digits are the    *)
(*     new variables; it falls into windows between which nothing can carry, *)
(*     so that the digits of each window are a function of its terms         *)
(*  x  nothing is claimed                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
K == Cases[t]
Rng(f) == {f[i] : i \in DOMAIN f}
(* Steps are judged on their own, so behaviours may start in the middle. *)
Init == t \in DOMAIN Cases /\ l \in {1000 * i : i \in 0..(Len(K.steps) \div 1000)}
Next == l < Len(K.steps) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars

S == K.steps[l]
New == Rng(S[2])
Free == Rng(K.free)
VarsOf(lc) == {lc[i][1] : i \in DOMAIN lc} \ {1}
StepVars(s) == VarsOf(s[3]) \cup VarsOf(s[4]) \cup VarsOf(s[5])
AllVars == StepVars(S)
Boolean1(v) == K.bpos[v] # 0 /\ K.bpos[v] < l
Rank(v) == K.rank[v]
Small(lc) == Len(lc) < 200 /\ \A i \in DOMAIN lc : lc[i][3] < 12
AreSmall(s) == Small(s[3]) /\ Small(s[4]) /\ Small(s[5])
RECURSIVE SumR(_, _, _, _)
(* Integer value of the terms of lc whose variable is in the domain of w. *)
SumR(lc, w, i, acc) == IF i = 0 THEN acc
                       ELSE SumR(lc, w, i - 1, IF lc[i][1] \in DOMAIN w THEN acc + lc[i][2] * (2 ^ lc[i][3]) * w[lc[i][1]] ELSE acc)
Sum(lc, w) == SumR(lc, w, Len(lc), 0)
(* The constraint as q2 v^2 + q1 v + q0 = 0 in the new variable, for given others. *)
Quad(w, v) ==
  LET a0 == Sum(S[3], w) b0 == Sum(S[4], w) c0 == Sum(S[5], w)
      u == [x \in {v} |-> 1]
      a1 == Sum(S[3], u) b1 == Sum(S[4], u) c1 == Sum(S[5], u)
  IN <<a1 * b1, a0 * b1 + a1 * b0 - c1, a0 * b0 - c0>>
(* Whether boolean values w of all its variables satisfy the constraint of a step. *)
Meets(s, w) == LET u == w @@ [x \in {1} |-> 1] IN Sum(s[3], u) * Sum(s[4], u) = Sum(s[5], u)
OneNew == Cardinality(New) = 1 /\ New \subseteq AllVars
The == CHOOSE v \in New : TRUE
StepB == /\ OneNew /\ AllVars = New /\ AreSmall(S)
         /\ K.bpos[The] = l
         /\ LET q == Quad([x \in {1} |-> 1], The) IN q[1] # 0 /\ q[2] = -q[1] /\ q[3] = 0
StepF == /\ OneNew /\ AreSmall(S) /\ The \notin Free
         /\ K.dstep[The] = l /\ (K.bpos[The] = l \/ Boolean1(The))
         /\ \A v \in AllVars \ New : Boolean1(v) /\ Rank(v) \in 0..(Rank(The) - 1)
         /\ Cardinality(AllVars) <= 8
         /\ \A k \in Rng(S[6]) : AreSmall(K.steps[k]) /\ StepVars(K.steps[k]) \subseteq AllVars \ New
         /\ \A w \in [(AllVars \ New) -> {0, 1}] : (\A k \in Rng(S[6]) : Meets(K.steps[k], w)) =>
              LET q == Quad(w @@ [x \in {1} |-> 1], The) IN q[1] = 0 /\ q[2] # 0 /\ (q[3] = 0 \/ q[3] = -q[2])
(* ops = digits: S[3] are the operands, S[5] the digits. *)
Top == Len(S[5]) - 1
(* Per exponent, the most and the least that the operands contribute, and    *)
(* the largest rank of its variables.                                        *)
Table ==
  LET z == [e \in 0..Top |-> [hi |-> 0, lo |-> 0, rk |-> 0]]
      RECURSIVE Go(_, _)
      Go(i, tb) == IF i > Len(S[3]) THEN tb
                   ELSE LET x == S[3][i] IN
                        Go(i + 1, [tb EXCEPT ![x[3]] =
                             [hi |-> IF x[1] = 1 \/ x[2] = 1 THEN @.hi + x[2] ELSE @.hi,
                              lo |-> IF x[1] = 1 \/ x[2] = -1 THEN @.lo + x[2] ELSE @.lo,
                              rk |-> IF x[1] # 1 /\ Rank(x[1]) > @.rk THEN Rank(x[1]) ELSE @.rk]])
  IN Go(1, z)
DigitAt == [e \in 0..Top |-> (CHOOSE i \in DOMAIN S[5] : S[5][i][3] = e)]
(* Walks the exponents upwards with the carries of the largest and the       *)
(* smallest sum; a window ends where both are zero. low is the smallest rank *)
(* of the digits of the window so far, high the largest of its operands.     *)
Minimum(a, b) == IF a < b THEN a ELSE b
Maximum(a, b) == IF a > b THEN a ELSE b
RECURSIVE Windows(_, _, _, _, _, _, _)
Windows(tb, dg, e, hi, lo, low, high) ==
  IF e > Top THEN hi = 0 /\ lo = 0 /\ high < low
  ELSE LET first == hi = 0 /\ lo = 0
           d == Rank(S[5][dg[e]][1])
       IN /\ first /\ e > 0 => high < low
          /\ Windows(tb, dg, e + 1, (hi + tb[e].hi) \div 2, (lo + tb[e].lo) \div 2,
                     IF first THEN d ELSE Minimum(low, d), IF first THEN tb[e].rk ELSE Maximum(high, tb[e].rk))
StepM == /\ New # {} /\ New \cap Free = {}
         /\ S[4] = <<<<1, 1, 0>>>>
         /\ \A v \in New : K.dstep[v] = l
         /\ \A v \in AllVars : Boolean1(v) /\ Rank(v) >= 0
         /\ VarsOf(S[5]) = New
         /\ Cardinality(New) = Len(S[5]) /\ Top < K.cap
         /\ {S[5][i][3] : i \in DOMAIN S[5]} = 0..Top
         /\ \A i \in DOMAIN S[5] : S[5][i][1] # 1 /\ S[5][i][2] = 1
         /\ \A i \in DOMAIN S[3] : S[3][i][3] \in 0..Top
         /\ Windows(TLCEval(Table), TLCEval(DigitAt), 0, 0, 0, 0, 0)
Good == CASE S[1] = "b" -> StepB [] S[1] = "f" -> StepF [] S[1] = "m" -> StepM [] S[1] = "x" -> New = {} [] OTHER -> FALSE
Done == /\ \A v \in 2..K.nv : v \in Free \/ K.dstep[v] # 0
        /\ \A v \in Free : K.bpos[v] # 0 /\ K.rank[v] = 0
        /\ \A i \in DOMAIN K.outs : \A j \in DOMAIN K.outs[i] : K.outs[i][j] \in 1..K.nv
CertOK == /\ l > 0 => Good
          /\ l = Len(K.steps) => Done
=============================================================================
