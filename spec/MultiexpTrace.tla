--------------------------- MODULE MultiexpTrace ---------------------------
(* Recorded multi-exponentiations of the real code. *)
EXTENDS Multiexp, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Init == t \in DOMAIN Cases /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, l>>
K == Cases[t]
Sel == Selected(K.full, K.dens, Len(K.exps))
(* C09 *)
ValueRight ==
  \/ l = 0
  \/ K.fail >= 0
  \/ LET sel == Sel IN
     \/ Errors(K.bases, K.start, K.exps, sel) # {}
     \/ K.res = "ok" /\ K.out = Value(K.q, K.bases, K.start, K.exps, sel)
(* C10 *)
ErrorsRight ==
  \/ l = 0
  \/ LET sel == Sel
         errs == Errors(K.bases, K.start, K.exps, sel)
     IN IF K.fail < 0
        THEN IF K.res = "ok" THEN errs = {} /\ K.out = Value(K.q, K.bases, K.start, K.exps, sel)
                             ELSE K.res \in errs
        ELSE \* the caller's own source fails when asked for element K.fail
             LET asked == K.fail >= K.start /\ K.fail < K.start + Len(sel)
             IN IF K.res = "ok" THEN ~asked /\ K.out = Value(K.q, K.bases, K.start, K.exps, sel)
                                ELSE asked /\ K.res = "IoOther"
DensityCounted == l = 0 \/ K.full \/ K.total = Len(SelectSeq(K.dens, LAMBDA b : b))
=============================================================================
