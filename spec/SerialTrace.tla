----------------------------- MODULE SerialTrace -----------------------------
(* Recorded reads and writes of the real code.                                 *)
EXTENDS Serial, Json, IOUtils, FiniteSets
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Init == t \in DOMAIN Cases /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, l>>
K == Cases[t]
Is(x) == l = 1 /\ K.e = x
UnNorm(kind, o) == [i \in DOMAIN o |-> IF IsVec(Fields(kind)[i]) THEN o[i] ELSE o[i][1]]
ReadRight ==
  \/ ~Is("read")
  \/ LET r == TLCEval(Read(40961, K.kind, K.checked, K.bytes)) IN
     /\ K.peak_kb <= 65536 + Len(K.bytes)       \* memory in proportion to the input
     /\ IF K.res = "ok"
        THEN /\ r.verd # "no"
             /\ K.obj = r.obj /\ K.used = r.used
             /\ K.wres
             /\ (\A i \in DOMAIN K.obj : \A j \in DOMAIN K.obj[i] : K.obj[i][j] # 0)
                   => \/ K.re = Encode(K.kind, UnNorm(K.kind, K.obj)) /\ (K.eq \/ r.verd = "may")
        ELSE K.res = "err" /\ r.verd # "yes"
WriteRight ==
  \/ ~Is("write")
  \/ /\ K.res = IF K.cap >= Len(K.bytes) THEN "ok" ELSE "err"
     /\ K.wrote = SubSeq(K.bytes, 1, IF K.cap >= Len(K.bytes) THEN Len(K.bytes) ELSE K.cap)
EqualityRight == Is("eq") => (K.res <=> K.a = K.b)
(* The real curve: by the class of each point. *)
RECURSIVE Tok(_, _)
Tok(i, v) == IF i > Len(K.toks) THEN v
             ELSE Tok(i + 1, Worse(v, Verdict(K.kind, K.checked \/ K.kind # "params", K.toks[i][1], [k |-> K.toks[i][2]])))
BlsRight ==
  \/ ~Is("bls")
  \/ LET v == IF K.trunc THEN "no" ELSE Tok(1, "yes")
     IN IF K.res = "ok" THEN v # "no" /\ K.same /\ K.used = K.total ELSE K.res = "err" /\ v # "yes"
(* Vectors of many points: the size of what is written, the counts in it, and   *)
(* that reading takes exactly that and rejects a spoilt last point.             *)
ElSize(i) == IF i = 6 THEN SizeOf("g2u") ELSE SizeOf("g1u")
RECURSIVE SizeFrom(_, _)
SizeFrom(sizes, i) == IF i > Len(sizes) THEN 0 ELSE 4 + (sizes[i] * ElSize(i)) + SizeFrom(sizes, i + 1)
Header == (3 * SizeOf("g1u")) + (3 * SizeOf("g2u"))
ManyRight ==
  \/ ~Is("many")
  \/ /\ K.wres
     /\ K.total = Header + SizeFrom(K.sizes, 1)
     /\ \A i \in DOMAIN K.sizes : K.heads[i] = <<0, K.sizes[i] \div 65536, (K.sizes[i] \div 256) % 256, K.sizes[i] % 256>>
     /\ IF K.spoil = "none" THEN K.res = "ok" /\ K.same /\ K.used = K.total ELSE K.res = "err"
=============================================================================
