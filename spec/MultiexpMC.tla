----------------------------- MODULE MultiexpMC -----------------------------
(* Design check: the windowed bucket algorithm, step by step, against the     *)
(* definition, exhaustively for tiny parameters; and the enumeration of the   *)
(* small cases that the real code is then run on.                             *)
EXTENDS Multiexp, Json
CONSTANTS Q, MaxN, Exps, Bases, C, Bits, Starts, Extra
VARIABLES exps, dens, bases, start, win, acc, err, emit
vars == <<exps, dens, bases, start, win, acc, err, emit>>
Sel == Selected(FALSE, dens, Len(exps))
Windows == (Bits + C - 1) \div C
Init == /\ \E n \in 0..MaxN : exps \in [1..n -> Exps] /\ dens \in [1..n -> BOOLEAN]
        /\ start \in Starts
        /\ LET k == Cardinality({i \in DOMAIN dens : dens[i]}) IN
           \E m \in 0..(start + k + Extra) : bases \in [1..m -> Bases]
        /\ win = Windows /\ acc = 0 /\ err = "none" /\ emit = FALSE
Digit(e, w) == (e \div 2 ^ (C * w)) % 2 ^ C
(* One window: walk the selected exponents along the bases. *)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(w, sel, k, pos, buckets, trivial) ==
  IF k > Len(sel) THEN [err |-> "none", buckets |-> buckets, trivial |-> trivial]
  ELSE LET e == exps[sel[k]]
           used == e # 0 /\ IF e = 1 THEN w = 0 ELSE Digit(e, w) # 0
       IN IF pos >= Len(bases) THEN [err |-> "IoEof", buckets |-> buckets, trivial |-> 0]
          ELSE IF ~used THEN Walk(w, sel, k + 1, pos + 1, buckets, trivial)
          ELSE IF bases[pos + 1] = 0 THEN [err |-> "UnexpectedIdentity", buckets |-> buckets, trivial |-> 0]
          ELSE IF e = 1 THEN Walk(w, sel, k + 1, pos + 1, buckets, (trivial + bases[pos + 1]) % Q)
          ELSE Walk(w, sel, k + 1, pos + 1, [buckets EXCEPT ![Digit(e, w)] = (@ + bases[pos + 1]) % Q], trivial)
RECURSIVE Parts(_, _, _, _)
Parts(b, i, run, tot) == IF i = 0 THEN tot ELSE Parts(b, i - 1, (run + b[i]) % Q, (tot + run + b[i]) % Q)
Window == /\ win > 0 /\ err = "none"
          /\ LET r == Walk(win - 1, Sel, 1, start, [i \in 1..(2 ^ C - 1) |-> 0], 0)
             IN /\ err' = r.err
                /\ acc' = (acc * 2 ^ C + r.trivial + Parts(r.buckets, 2 ^ C - 1, 0, 0)) % Q
          /\ win' = win - 1
          /\ UNCHANGED <<exps, dens, bases, start, emit>>
Spec == Init /\ [][Window]_vars
AsBytes == [i \in DOMAIN exps |-> <<exps[i]>>]
Right ==
  (win = 0 \/ err # "none") =>
    LET errs == Errors(bases, start, AsBytes, Sel)
    IN IF err # "none" THEN err \in errs
       ELSE errs = {} /\ acc = Value(Q, bases, start, AsBytes, Sel)
Emit == win = Windows =>
  PrintT(ToJson([bases |-> bases, start |-> start, exps |-> exps, dens |-> dens,
                 full |-> \A i \in DOMAIN dens : dens[i]]))
=============================================================================
