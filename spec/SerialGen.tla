------------------------------ MODULE SerialGen ------------------------------
(* Design check of the formats (what is written reads back; no prefix reads;    *)
(* nothing beyond the object is consumed), and the enumeration of damaged       *)
(* inputs: every truncation, every change of a point's kind or value, every     *)
(* length field replaced, bytes appended.                                       *)
EXTENDS Serial, Json, FiniteSets
CONSTANTS P, MaxLen, Emitting
VARIABLES kind, obj, edit
vars == <<kind, obj, edit>>

Seqs(n) == UNION {[1..k -> {n + 3}] : k \in 0..MaxLen}
Objs(k) ==
  CASE k = "proof" -> {<<5, 6, P - 1>>, <<1, 1, 300>>}
    [] k = "vk" -> {<<1, 2, 3, 4, 5, 6, s>> : s \in Seqs(6)}
    [] k = "params" -> {<<1, 2, 3, 4, 5, 6, s, h, l, a, b, d>> :
                          s \in Seqs(6), h \in Seqs(7), l \in Seqs(8), a \in Seqs(9), b \in Seqs(10), d \in Seqs(11)}
Bytes == Encode(kind, obj)

(* Where points and length fields start. *)
FieldBytes(i) == EncField(Fields(kind)[i], obj[i])
RECURSIVE StartR(_, _)
StartR(i, acc) == IF i = 1 THEN acc ELSE StartR(i - 1, acc + Len(FieldBytes(i - 1)))
Start(i) == StartR(i, 1)
VecFields == {i \in DOMAIN obj : IsVec(Fields(kind)[i])}
Lengths == {Start(i) : i \in VecFields}
Points == {Start(i) : i \in DOMAIN obj \ VecFields}
          \cup UNION {{Start(i) + 4 + (j - 1) * SizeOf(ElTy(Fields(kind)[i])) : j \in DOMAIN obj[i]} : i \in VecFields}
Put(b, at, s) == [i \in DOMAIN b |-> IF i >= at /\ i < at + Len(s) THEN s[i - at + 1] ELSE b[i]]
Huge == {<<255, 255, 255, 255>>, <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<128, 0, 0, 0>>, <<0, 0, 0, 0>>,
         <<0, 0, 0, 1>>, <<0, 0, 0, 2>>, <<0, 0, 0, 3>>, <<64, 0, 0, 1>>}
Edits == {<<"none", 0, <<>>>>, <<"add", 0, <<0>>>>, <<"add", 0, <<0, 0, 0, 1, 7, 0, 0, 0, 0>>>>}
  \cup {<<"cut", n, <<>>>> : n \in 0..(Len(Bytes) - 1)}
  \cup {<<"put", at, s>> : at \in Points, s \in {<<1>>, <<2>>, <<3>>, <<4>>, <<128>>, <<255>>, <<1, 0, 0, 0>>,
                                                  <<0, 0, 0, 0>>, <<0, P % 256, P \div 256>>, <<0, 0, 0, 1>>, <<0, 1, 0, 0, 0, 1>>,
                                                  <<2, 7, 0>>, <<2, 0, 0, 0>>, <<0, 1, 0, 0, 0, 0, 0, 0, 1>>}}
  \cup {<<"put", at, s>> : at \in Lengths, s \in Huge}
Apply(e) == CASE e[1] = "none" -> Bytes
              [] e[1] = "add" -> Bytes \o e[3]
              [] e[1] = "cut" -> SubSeq(Bytes, 1, e[2])
              [] e[1] = "put" -> Put(Bytes, e[2], e[3])

Init == kind \in {"proof", "vk", "params"} /\ obj \in Objs(kind) /\ edit = <<"none", 0, <<>>>>
Next == edit[1] = "none" /\ edit' \in Edits /\ UNCHANGED <<kind, obj>>
Spec == Init /\ [][Next]_vars

R(checked) == Read(P, kind, checked, Apply(edit))
RoundTrip == edit[1] = "none" =>
   \A ch \in BOOLEAN : R(ch) = [verd |-> "yes", used |-> Len(Bytes), obj |-> Norm(kind, obj)]
NoPrefix == edit[1] = "cut" => R(TRUE).verd = "no" /\ R(FALSE).verd = "no"
ExactUse == edit[1] = "add" => R(TRUE).used = Len(Bytes)
(* Whatever reads under checking consists of subgroup elements only, and is    *)
(* what writing it again gives.                                                 *)
Canonical == LET r == R(TRUE) IN r.verd = "yes" =>
   Encode(kind, [i \in DOMAIN r.obj |-> IF IsVec(Fields(kind)[i]) THEN r.obj[i] ELSE r.obj[i][1]])
     = SubSeq(Apply(edit), 1, r.used)
Emit == Emitting => PrintT(ToJson([kind |-> kind, bytes |-> Apply(edit), edit |-> edit[1]]))
=============================================================================
