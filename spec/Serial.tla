------------------------------- MODULE Serial -------------------------------
(* The byte formats of proofs, verifying keys and parameters, over the toy     *)
(* engine: a point is flag, eight bytes of value (little-endian), padding;     *)
(* flag 0 is an element of the subgroup, 1 the identity, 2 a curve point       *)
(* outside the subgroup. A format is a sequence of fields, read in order; a    *)
(* vector is a 32-bit big-endian count and its points.                         *)
EXTENDS Integers, Sequences, TLC

Zeros(n) == [i \in 1..n |-> 0]
(* Point sizes: compressed and not, in G1 and G2. *)
SizeOf(ty) == CASE ty = "g1c" -> 9 [] ty = "g1u" -> 10 [] ty = "g2c" -> 11 [] ty = "g2u" -> 12
LE8(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, (v \div 16777216) % 256, 0, 0, 0, 0>>
Pt(ty, v) == <<IF v = 0 THEN 1 ELSE 0>> \o LE8(v) \o Zeros(SizeOf(ty) - 9)
BE4(n) == <<0, 0, (n \div 256) % 256, n % 256>>

(* The fields of each kind of object: <<type>> or <<"vec", type>>.            *)
Vk == << "g1u", "g1u", "g2u", "g2u", "g1u", "g2u", "vec g1u" >>
Fields(kind) == CASE kind = "proof" -> << "g1c", "g2c", "g1c" >>
                  [] kind = "vk" -> Vk
                  [] kind = "params" -> Vk \o << "vec g1u", "vec g1u", "vec g1u", "vec g1u", "vec g2u" >>
IsVec(f) == f \in {"vec g1u", "vec g2u"}
ElTy(f) == IF f = "vec g1u" THEN "g1u" ELSE IF f = "vec g2u" THEN "g2u" ELSE f

(* An object is a sequence of points or sequences of points. *)
RECURSIVE Cat(_, _, _)
Cat(ss, i, acc) == IF i > Len(ss) THEN acc ELSE Cat(ss, i + 1, acc \o ss[i])
EncField(f, x) == IF IsVec(f) THEN BE4(Len(x)) \o Cat([i \in DOMAIN x |-> Pt(ElTy(f), x[i])], 1, <<>>)
                  ELSE Pt(f, x)
Encode(kind, obj) == Cat([i \in DOMAIN obj |-> EncField(Fields(kind)[i], obj[i])], 1, <<>>)

(* Reading. A point is a value >= 0, "no" if it is not one; whether it may     *)
(* stand in its place is decided by Verdict: "yes", "no", or "may" where       *)
(* nothing is promised.                                                        *)
Value(b, at) == b[at] + 256 * b[at + 1] + 65536 * (b[at + 2] % 128)
Plain(b, at, size) == \A i \in (at + 4)..(at + size - 1) : b[i] = 0
PointAt(P, b, at, size) ==
  LET v == Value(b, at + 1)
      ok == Plain(b, at, size) /\ b[at + 3] < 128
  IN IF ~ok THEN [k |-> "bad", v |-> 0]
     ELSE IF b[at] = 0 /\ v # 0 /\ v < P THEN [k |-> "in", v |-> v]
     ELSE IF b[at] = 1 /\ v = 0 THEN [k |-> "id", v |-> 0]
     ELSE IF b[at] = 2 /\ v # 0 /\ v < P THEN [k |-> "out", v |-> v]
     ELSE [k |-> "bad", v |-> 0]

(* i is the field's number within the object. The first six fields of a key    *)
(* should not be identities either, but nothing promises that they are checked. *)
Verdict(kind, checked, i, pt) ==
  CASE pt.k = "bad" -> "no"
    [] pt.k = "in" -> "yes"
    [] pt.k = "id" -> IF kind # "proof" /\ i <= 6 THEN "may" ELSE "no"
    [] pt.k = "out" -> IF checked THEN "no" ELSE IF i <= 7 THEN "may" ELSE "yes"
Worse(x, y) == IF x = "no" \/ y = "no" THEN "no" ELSE IF x = "may" \/ y = "may" THEN "may" ELSE "yes"

Count(b, at) == IF b[at] > 0 \/ b[at + 1] > 0 THEN 100000 ELSE 256 * b[at + 2] + b[at + 3]

(* n points of the given type from position at: verdict, next position, values. *)
RECURSIVE ReadPts(_, _, _, _, _, _, _, _, _, _)
ReadPts(P, kind, checked, i, ty, b, at, n, verd, acc) ==
  IF n = 0 THEN [verd |-> verd, at |-> at, vals |-> acc]
  ELSE IF at + SizeOf(ty) - 1 > Len(b) THEN [verd |-> "no", at |-> at, vals |-> acc]
  ELSE LET pt == PointAt(P, b, at, SizeOf(ty))
           v == Worse(verd, Verdict(kind, checked, i, pt))
       IN IF v = "no" THEN [verd |-> "no", at |-> at, vals |-> acc]
          ELSE ReadPts(P, kind, checked, i, ty, b, at + SizeOf(ty), n - 1, v, Append(acc, pt.v))

RECURSIVE ReadFields(_, _, _, _, _, _, _, _)
ReadFields(P, kind, checked, i, b, at, verd, acc) ==
  IF i > Len(Fields(kind)) THEN [verd |-> verd, used |-> at - 1, obj |-> acc]
  ELSE LET f == Fields(kind)[i]
           short == IsVec(f) /\ at + 3 > Len(b)
           n == IF short THEN 0 ELSE IF IsVec(f) THEN Count(b, at) ELSE 1
           r == ReadPts(P, kind, checked, i, ElTy(f), b, IF IsVec(f) THEN at + 4 ELSE at, n, verd, <<>>)
       IN IF short \/ r.verd = "no" THEN [verd |-> "no", used |-> 0, obj |-> <<>>]
          ELSE ReadFields(P, kind, checked, i + 1, b, r.at, r.verd, Append(acc, r.vals))
(* The whole: b is all that the reader will deliver before it ends or fails.  *)
(* Single points come out as one-element sequences.                            *)
Read(P, kind, checked, b) == ReadFields(P, kind, checked \/ kind # "params", 1, b, 1, "yes", <<>>)
Norm(kind, obj) == [i \in DOMAIN obj |-> IF IsVec(Fields(kind)[i]) THEN obj[i] ELSE <<obj[i]>>]
=============================================================================
