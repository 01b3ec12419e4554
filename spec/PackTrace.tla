----------------------------- MODULE PackTrace -----------------------------
(* Recorded packings (inside and outside of a circuit), conversions of bytes *)
(* and sequences of equalities of bounded values.                            *)
EXTENDS Packing, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
K == Cases[t]
Init == t \in DOMAIN Cases /\ l = 0
Next == l < Len(K.ev) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Right(e) ==
  CASE e.k = "pack" -> /\ Packed(e.bits, e.cap, e.w, e.packed)
                       /\ Packed(e.bits, e.cap, e.w, e.inputs)
                       /\ e.sat /\ e.verify
                       /\ \A i \in DOMAIN e.other : e.other[i] = 0
    [] e.k = "bytes" -> e.be = BytesBE(e.bytes) /\ e.le = BytesLE(e.bytes)
    \* satisfied exactly when all sides are equal
    [] e.k = "meq" -> e.sat <=> \A i \in DOMAIN e.eqs : Wide(e.eqs[i][2], e.eqs[i][1]) = Wide(e.eqs[i][3], e.eqs[i][1])
    [] OTHER -> FALSE
PackRight == K.panic = 0 /\ (l > 0 => Right(K.ev[l]))
=============================================================================
