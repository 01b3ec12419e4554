------------------------------ MODULE HashLong ------------------------------
(* Long messages of constants, block by block. The message is a formula, so   *)
(* that no state holds it: byte j is (a j + b (j div 256) + c) mod 256.       *)
EXTENDS Hashes, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, blk, h   \* case, blocks absorbed, chaining value
vars == <<t, blk, h>>
K == Cases[t]
Blake == K.alg = "b2s"
Msg(j) == ((K.a * j) + (K.b * (j \div 256)) + K.c) % 256
N == K.n
Blocks == IF Blake THEN (IF N = 0 THEN 1 ELSE (N + 63) \div 64) ELSE (N + 72) \div 64
Len8 == LengthBE(N)   \* the last seven bytes of a SHA-256 padding
Pad(j) == IF Blake THEN 0
          ELSE IF j = N THEN 128
          ELSE IF j >= (64 * Blocks) - 7 THEN Len8[j - (64 * Blocks) + 8] ELSE 0
Byte(j) == IF j < N THEN Msg(j) ELSE Pad(j)
Word(i) == LET o == (64 * blk) + (4 * (i - 1))
           IN IF Blake THEN <<(Byte(o + 3) * 256) + Byte(o + 2), (Byte(o + 1) * 256) + Byte(o)>>
              ELSE <<(Byte(o) * 256) + Byte(o + 1), (Byte(o + 2) * 256) + Byte(o + 3)>>
Block == [i \in 1..16 |-> Word(i)]
RECURSIVE ShaAll(_, _, _), BlakeAll(_, _, _)
ShaAll(r, w, v) == IF r = 64 THEN v ELSE ShaAll(r + 1, TLCEval(ShaWin(w)), TLCEval(ShaRound(r, w, v)))
BlakeAll(r, w, v) == IF r = 80 THEN v ELSE BlakeAll(r + 1, w, TLCEval(BlakeMix(r \div 8, (r % 8) + 1, w, v)))
Absorb == LET w == TLCEval(Block)
              last == blk = Blocks - 1
          IN IF Blake THEN BlakeFinish(h, BlakeAll(0, w, TLCEval(BlakeStart(h, IF last THEN N ELSE 64 * (blk + 1), last))))
             ELSE ShaFinish(h, ShaAll(0, w, h))
Init == /\ t \in DOMAIN Cases /\ blk = 0
        /\ h = IF Cases[t].alg = "b2s" THEN BlakeInit(Cases[t].pers) ELSE IV
Next == /\ blk < Blocks /\ K.res = "ok"
        /\ h' = TLCEval(Absorb) /\ blk' = blk + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
WBit(x, k) == IF k < 16 THEN (x[2] \div (2 ^ k)) % 2 ELSE (x[1] \div (2 ^ (k - 16))) % 2
DigestBit(i) == LET x == h[((i - 1) \div 32) + 1] k == (i - 1) % 32 IN WBit(x, IF Blake THEN k ELSE 31 - k)
LongDigestRight == /\ K.res = "ok"
                   /\ blk = Blocks => Len(K.got) = 256 /\ \A i \in 1..256 : K.got[i] = DigestBit(i)
=============================================================================
