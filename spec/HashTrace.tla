----------------------------- MODULE HashTrace -----------------------------
(* Recorded runs of the hash circuits. Each behaviour is one run: the input  *)
(* bits are loaded, the message is hashed round by round, and the digest is  *)
(* compared with what the circuit claims and what its wires are worth. A run *)
(* with missing bits is hashed for two ways of filling them in.              *)
(*  code[i]  input bit i: 0, 1, or 2f for free bit f and 2f + 1 for its      *)
(*           negation                                                        *)
EXTENDS Hashes, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES
  t, l,    \* case and run
  fill,    \* what missing bits are taken for
  msg,     \* padded message in bytes
  blk, rnd, \* block and round; rnd = -1 before the first, 99 when done
  h, v, w  \* chaining value, working state, words of the block
vars == <<t, l, fill, msg, blk, rnd, h, v, w>>
K == Cases[t]
R == K.runs[l]
Blake == K.alg = "b2s"
Rounds == IF Blake THEN 80 ELSE 64
Init == /\ t \in DOMAIN Cases
        /\ l \in DOMAIN K.runs \cup (IF K.runs = <<>> THEN {0} ELSE {})
        /\ fill \in (IF l # 0 /\ ~R.full THEN {0, 1} ELSE {0})
        /\ msg = <<>> /\ blk = 0 /\ rnd = -1 /\ h = <<>> /\ v = <<>> /\ w = <<>>
Free(f) == IF R.free[f] = -1 THEN (IF fill = 0 THEN 0 ELSE f % 2) ELSE R.free[f]
Bit(i) == LET c == K.code[i] IN IF c < 2 THEN c ELSE IF c % 2 = 0 THEN Free(c \div 2) ELSE 1 - Free(c \div 2)
P8 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Byte(j) == LET b(k) == P8[k] * Bit(8 * (j - 1) + (IF Blake THEN k ELSE 9 - k))
           IN b(1) + b(2) + b(3) + b(4) + b(5) + b(6) + b(7) + b(8)
Bytes == [j \in 1..(Len(K.code) \div 8) |-> Byte(j)]
Padded(m) == CASE K.alg = "sha" -> ShaPad(m) [] K.alg = "block" -> m [] K.alg = "b2s" -> BlakePad(m)
Blocks == Len(msg) \div 64
MsgLen == Len(K.code) \div 8
Counter(b) == IF b = Blocks - 1 THEN MsgLen ELSE 64 * (b + 1)
Begin(m, b, hh) ==
  /\ w' = TLCEval(IF Blake THEN BlakeBlock(m, b) ELSE ShaBlock(m, b))
  /\ v' = TLCEval(IF Blake THEN BlakeStart(hh, IF b = (Len(m) \div 64) - 1 THEN MsgLen ELSE 64 * (b + 1), b = (Len(m) \div 64) - 1) ELSE hh)
  /\ h' = TLCEval(hh)
  /\ rnd' = 0 /\ blk' = b
  /\ UNCHANGED <<t, l, fill>>
Load == /\ rnd = -1 /\ l # 0 /\ R.err # "panic"
        /\ LET m == TLCEval(Padded(TLCEval(Bytes)))
           IN msg' = m /\ Begin(m, 0, IF Blake THEN BlakeInit(K.pers) ELSE IV)
Step == /\ rnd \in 0..(Rounds - 1)
        /\ rnd' = rnd + 1
        /\ v' = TLCEval(IF Blake THEN BlakeMix(rnd \div 8, (rnd % 8) + 1, w, v) ELSE ShaRound(rnd, w, v))
        /\ w' = TLCEval(IF Blake THEN w ELSE ShaWin(w))
        /\ UNCHANGED <<t, l, fill, msg, blk, h>>
Chain == TLCEval(IF Blake THEN BlakeFinish(h, v) ELSE ShaFinish(h, v))
EndBlock == /\ rnd = Rounds
            /\ IF blk + 1 < Blocks THEN Begin(msg, blk + 1, Chain) /\ UNCHANGED msg
               ELSE rnd' = 99 /\ h' = Chain /\ UNCHANGED <<t, l, fill, msg, blk, v, w>>
Next == Load \/ Step \/ EndBlock
Same == UNCHANGED vars
Spec == Init /\ [][Next]_vars
(* Digest bits: big-endian words for SHA-256, little-endian ones for BLAKE2s. *)
WBit(x, k) == IF k < 16 THEN (x[2] \div (2 ^ k)) % 2 ELSE (x[1] \div (2 ^ (k - 16))) % 2
DigestBit(i) == LET x == h[((i - 1) \div 32) + 1] k == (i - 1) % 32 IN WBit(x, IF Blake THEN k ELSE 31 - k)
Digest == [i \in 1..256 |-> DigestBit(i)]
Refusable == Len(K.code) % 8 # 0 \/ (K.alg = "block" /\ Len(K.code) # 512) \/ (K.alg = "b2s" /\ Len(K.pers) # 8)
NoPanic == K.panic = 0 /\ (l > 0 => R.err # "panic")
(* An input that is no message of the function yields no digest. *)
Refused == Refusable => K.panic = 1 \/ K.err # ""
FullRight == /\ R.err = "" /\ R.sat = 1
             /\ rnd = 99 => LET d == TLCEval(Digest) IN R.got = d /\ R.worth = d
MissRight == /\ R.err \in {"", "AssignmentMissing"}
             /\ R.len => R.err = ""
             /\ ~R.len => R.err # ""
             /\ (R.err = "" /\ rnd = 99) => /\ Len(R.got) = 256 /\ R.got = R.worth
                                            /\ \A i \in 1..256 : R.got[i] # -1 => R.got[i] = DigestBit(i)
ValuesRight == IF Refusable THEN Refused ELSE NoPanic /\ K.err = "" /\ ((l > 0 /\ R.full) => FullRight)
ShapeSame == ~Refusable => NoPanic /\ K.err = "" /\ K.ns /\ (l > 0 => R.same /\ R.tn = K.ncons)
MissingRight == ~Refusable => NoPanic /\ K.err = "" /\ ((l > 0 /\ ~R.full) => MissRight)
=============================================================================
