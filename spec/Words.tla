------------------------------- MODULE Words -------------------------------
(* 32-bit words as sequences of bits, least significant first, and what the *)
(* word gadgets mean on them.                                               *)
EXTENDS Integers, Sequences, FiniteSets
W == 32
WRotr(x, k) == [i \in 1..W |-> x[1 + ((i - 1 + k) % W)]]
(* Shifts take the amount modulo the width. *)
WShr(x, k) == LET s == k % W IN [i \in 1..W |-> IF i + s <= W THEN x[i + s] ELSE 0]
WXor(x, y) == [i \in 1..W |-> (x[i] + y[i]) % 2]
WCh(x, y, z) == [i \in 1..W |-> IF x[i] = 1 THEN y[i] ELSE z[i]]
WMaj(x, y, z) == [i \in 1..W |-> IF x[i] + y[i] + z[i] >= 2 THEN 1 ELSE 0]
WRev(x) == [i \in 1..W |-> x[W + 1 - i]]
RECURSIVE AddR(_, _, _, _)
(* xs: the operands; column by column with an integer carry *)
Column(xs, i) == LET RECURSIVE C(_, _)
                     C(j, acc) == IF j = 0 THEN acc ELSE C(j - 1, acc + xs[j][i])
                 IN C(Len(xs), 0)
AddR(xs, i, carry, acc) == IF i > W THEN acc
                           ELSE LET s == Column(xs, i) + carry
                                IN AddR(xs, i + 1, s \div 2, Append(acc, s % 2))
WAdd(xs) == AddR(xs, 1, 0, <<>>)
(* A word given bit by bit: constants, own bits, negated own bits, bits of   *)
(* the first register. The list is read from the least or the most           *)
(* significant end.                                                          *)
WMix(order, kinds, own, first) ==
  LET b(j) == CASE kinds[j] = 0 -> 0 [] kinds[j] = 1 -> 1 [] kinds[j] = 2 -> own[j] [] kinds[j] = 3 -> 1 - own[j]
                [] kinds[j] = 4 -> first[j] [] OTHER -> 1 - first[j]
  IN [i \in 1..W |-> IF order = "be" THEN b(W + 1 - i) ELSE b(i)]
IsFree(ins) == ins[1] \in {"walloc", "wmix"}
(* Result of one instruction; R holds the registers so far, own the free bits. *)
WordOp(ins, R, own) ==
  LET a(i) == R[ins[i + 1]] IN
  CASE ins[1] = "walloc" -> own
    [] ins[1] = "wconst" -> ins[2]
    [] ins[1] = "wmix" -> WMix(ins[2], ins[3], own, IF Len(R) = 0 THEN <<>> ELSE R[1])
    [] ins[1] = "wrot" -> WRotr(a(1), ins[3])
    [] ins[1] = "wshr" -> WShr(a(1), ins[3])
    [] ins[1] = "wxor" -> WXor(a(1), a(2))
    [] ins[1] = "wch" -> WCh(a(1), a(2), a(3))
    [] ins[1] = "wmaj" -> WMaj(a(1), a(2), a(3))
    [] ins[1] = "wadd" -> WAdd([i \in 1..(Len(ins) - 1) |-> R[ins[i + 1]]])
    [] ins[1] = "wrev" -> IF ins[3] \in {0, 1} THEN a(1) ELSE WRev(a(1))
RECURSIVE ExecR(_, _, _, _, _)
ExecR(prog, free, k, f, R) ==
  IF k > Len(prog) THEN R
  ELSE LET own == IF IsFree(prog[k]) THEN free[f] ELSE <<>>
       IN ExecR(prog, free, k + 1, IF IsFree(prog[k]) THEN f + 1 ELSE f, Append(R, WordOp(prog[k], R, own)))
(* All registers of a program for given free words. *)
Exec(prog, free) == ExecR(prog, free, 1, 1, <<>>)
=============================================================================
