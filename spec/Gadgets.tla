------------------------------ MODULE Gadgets ------------------------------
(* What each gadget means, as a relation between the values of its operands  *)
(* and of its results. A program is a sequence of gadget calls whose results *)
(* go into one register file; V is the sequence of register values, o the    *)
(* register before the first result of the call, n the number of results.    *)
EXTENDS Field, FiniteSets, TLC
Bit(x) == x \in {0, 1}
Xor(a, b) == (a + b) % 2
And(a, b) == a * b
Not(a) == 1 - a
Ch(a, b, c) == Xor(And(a, b), And(Not(a), c))
Maj(a, b, c) == Xor(Xor(And(a, b), And(a, c)), And(b, c))
(* The bits of the integer x, least significant first. *)
RECURSIVE BitLen(_)
BitLen(x) == IF x = 0 THEN 0 ELSE 1 + BitLen(x \div 2)
BitOf(x, i) == (x \div (2 ^ (i - 1))) % 2
(* Sum of 2^(i-1) * s[i], reduced by p (p = 0: not reduced). *)
RECURSIVE WeighR(_, _, _, _)
WeighR(p, s, i, acc) == IF i = 0 THEN acc
                        ELSE WeighR(p, s, i - 1, IF p = 0 THEN 2 * acc + s[i] ELSE (2 * acc + s[i]) % p)
Weigh(p, s) == WeighR(p, s, Len(s), 0)
RECURSIVE SideR(_, _, _, _)
SideR(V, s, i, acc) == IF i > Len(s) THEN acc ELSE SideR(V, s, i + 1, acc + V[s[i][1]] * (2 ^ s[i][2]))
Side(V, s) == SideR(V, s, 1, 0)
RECURSIVE LinR(_, _, _, _, _)
LinR(p, V, ins, i, acc) == IF i > Len(ins) THEN acc
                           ELSE LinR(p, V, ins, i + 1, IF V[ins[i][1]] = 1 THEN (acc + ins[i][2]) % p ELSE acc)
Lin(p, V, ins) == LinR(p, V, ins, 3, IF ins[2] = 0 THEN 0 ELSE V[ins[2]])
CeilDiv(a, b) == (a + b - 1) \div b

Free == {"bit", "bitc", "num", "fbits", "fbool", "ubits"}
(* Numbers of results. *)
Arity(p, cap, ins) ==
  CASE ins[1] \in {"bit", "bitc", "num", "axor", "aand", "aandnot", "anor", "const", "not", "xor", "and",
                   "ch", "maj", "mul", "sq", "inp", "lin"} -> 1
    [] ins[1] \in {"eq", "nz", "meq"} -> 0
    [] ins[1] \in {"rev", "look", "slook"} -> 2
    [] ins[1] \in {"fbits", "fbool", "bits", "sbits"} -> BitLen(p)
    [] ins[1] = "ubits" -> 64
    [] ins[1] \in {"wrot", "wshr"} -> 32
    [] ins[1] = "pack" -> CeilDiv(Len(ins) - 1, cap)

Holds(p, cap, ins, V, o, n) ==
  LET r(i) == V[o + i]
      a(i) == V[ins[i + 1]]
      all == [i \in 1..n |-> r(i)]
  IN
  /\ n = Arity(p, cap, ins)
  /\ CASE ins[1] = "bit" -> Bit(r(1))
       [] ins[1] = "bitc" -> Bit(r(1)) /\ (a(1) = 1 => r(1) = 0)
       [] ins[1] = "num" -> TRUE
       [] ins[1] \in {"fbits", "fbool", "ubits"} -> \A i \in 1..n : Bit(r(i))
       [] ins[1] \in {"axor", "xor"} -> r(1) = Xor(a(1), a(2))
       [] ins[1] \in {"aand", "and"} -> r(1) = And(a(1), a(2))
       [] ins[1] = "aandnot" -> r(1) = And(a(1), Not(a(2)))
       [] ins[1] = "anor" -> r(1) = And(Not(a(1)), Not(a(2)))
       [] ins[1] = "const" -> r(1) = ins[2]
       [] ins[1] = "not" -> r(1) = Not(a(1))
       [] ins[1] = "eq" -> a(1) = a(2)
       [] ins[1] = "ch" -> r(1) = Ch(a(1), a(2), a(3))
       [] ins[1] = "maj" -> r(1) = Maj(a(1), a(2), a(3))
       [] ins[1] = "mul" -> r(1) = (a(1) * a(2)) % p
       [] ins[1] = "sq" -> r(1) = (a(1) * a(1)) % p
       [] ins[1] = "nz" -> a(1) # 0
       [] ins[1] = "rev" -> IF a(3) = 1 THEN r(1) = a(2) /\ r(2) = a(1) ELSE r(1) = a(1) /\ r(2) = a(2)
       [] ins[1] = "inp" -> r(1) = a(1)
       [] ins[1] = "bits" -> (\A i \in 1..n : Bit(r(i))) /\ Weigh(p, all) = a(1)
       [] ins[1] = "sbits" -> \A i \in 1..n : r(i) = BitOf(a(1), i)
       [] ins[1] = "lin" -> r(1) = Lin(p, V, ins)
       [] ins[1] = "look" -> LET e == ins[5][1 + a(1) + 2 * a(2) + 4 * a(3)]
                             IN r(1) = e[1] /\ r(2) = e[2]
       [] ins[1] = "slook" -> LET e == ins[5][1 + a(1) + 2 * a(2)]
                              IN r(1) = e[1] /\ r(2) = IF a(3) = 1 THEN (p - e[2]) % p ELSE e[2]
       [] ins[1] = "pack" -> \A j \in 1..n : r(j) = Weigh(p, [i \in 1..(IF j = n THEN Len(ins) - 1 - (n - 1) * cap ELSE cap)
                                                              |-> a((j - 1) * cap + i)])
       [] ins[1] = "meq" -> \A j \in 2..Len(ins) : Side(V, ins[j][2]) = Side(V, ins[j][3])
       [] ins[1] = "wrot" -> \A i \in 1..32 : r(i) = V[ins[2][1 + ((i - 1 + ins[3]) % 32)]]
       [] ins[1] = "wshr" -> LET s == ins[3] % 32
                             IN \A i \in 1..32 : r(i) = IF i + s <= 32 THEN V[ins[2][i + s]] ELSE 0

(* Calls that restrict their operands instead of (only) computing: a program *)
(* can be satisfied by given free values exactly if these hold.              *)
Restricts(ins) == ins[1] \in {"eq", "nz", "meq", "bitc"}
(* Operand registers of a call. *)
Range(f) == {f[i] : i \in DOMAIN f}
Uses(ins) ==
  CASE ins[1] \in Free \ {"bitc"} -> {}
    [] ins[1] = "const" -> {}
    [] ins[1] \in {"look", "slook"} -> {ins[2], ins[3], ins[4]}
    [] ins[1] = "lin" -> ({ins[2]} \ {0}) \cup {ins[i][1] : i \in 3..Len(ins)}
    [] ins[1] = "meq" -> UNION {{x[1] : x \in Range(ins[j][2]) \cup Range(ins[j][3])} : j \in 2..Len(ins)}
    [] ins[1] \in {"wrot", "wshr"} -> Range(ins[2])
    [] OTHER -> {ins[i] : i \in 2..Len(ins)}
=============================================================================
