----------------------------- MODULE WordTrace -----------------------------
(* Recorded syntheses of programs over 32-bit words.                         *)
EXTENDS Words, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
K == Cases[t]
Init == t \in DOMAIN Cases /\ l = 0
Next == l < Len(K.runs) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Rev(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
(* All values given: the registers carry the words that the program means. *)
FullRight(r) ==
  /\ r.err = "" /\ r.sat = 1
  /\ LET R == TLCEval(Exec(K.prog, r.free)) IN \A k \in DOMAIN K.prog : r.got[k] = R[k] /\ r.be[k] = Rev(R[k]) /\ r.worth[k] = R[k]
(* Values missing: what is known is right for all completions (two of them   *)
(* are tried), and the strict synthesis stops where a value is needed.       *)
Fill(free, b) == [i \in DOMAIN free |-> IF free[i] = <<>> THEN [j \in 1..32 |-> b] ELSE free[i]]
Alt(free) == [i \in DOMAIN free |-> IF free[i] = <<>> THEN [j \in 1..32 |-> j % 2] ELSE free[i]]
Agrees(r, R) == \A k \in DOMAIN r.got : \A i \in 1..32 : r.got[k][i] # -1 => r.got[k][i] = R[k][i]
Incomplete(r, a) == \E i \in 1..32 : r.got[a][i] = -1
(* Index of the k-th instruction among those with a free value. *)
FreeIx(k) == Cardinality({j \in 1..k : IsFree(K.prog[j])})
Unknown(r, k) == IsFree(K.prog[k]) /\ r.free[FreeIx(k)] = <<>>
MissRight(r) ==
  /\ r.err \in {"", "AssignmentMissing"}
  /\ \A f \in {Fill(r.free, 0), Fill(r.free, 1), Alt(r.free)} :
       LET R == TLCEval(Exec(SubSeq(K.prog, 1, Len(r.got)), f)) IN Agrees(r, R)
  /\ \A k \in DOMAIN r.got : \A i \in 1..32 : r.got[k][i] = r.worth[k][i]
  /\ r.err # "" => /\ ~r.len
                   /\ LET ins == K.prog[r.ek] IN
                        ins[1] \in {"wxor", "wch", "wmaj", "wadd"} /\ \E i \in 2..Len(ins) : Incomplete(r, ins[i])
NoPanic == K.panic = 0 /\ (l > 0 => K.runs[l].err # "panic")
ValuesRight == NoPanic /\ K.err = "" /\ ((l > 0 /\ K.runs[l].full) => FullRight(K.runs[l]))
ShapeSame == NoPanic /\ K.err = "" /\ K.ns /\ (l > 0 => K.runs[l].same /\ K.runs[l].tn = K.ncons)
MissingRight == NoPanic /\ ((l > 0 /\ ~K.runs[l].full) => MissRight(K.runs[l]))
=============================================================================
