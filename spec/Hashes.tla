------------------------------- MODULE Hashes -------------------------------
(* SHA-256 (FIPS 180-4) and BLAKE2s-256 (RFC 7693, unkeyed, personalized) as *)
(* state machines over 32-bit words. A word is <<high, low>>, 16 bits each.  *)
EXTENDS Integers, Sequences, Bitwise
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WXor3(a, b, c) == WXor(WXor(a, b), c)
Neg(a) == <<65535 - a[1], 65535 - a[2]>>
RECURSIVE SumOf(_, _, _, _)
SumOf(s, i, h, lo) == IF i > Len(s) THEN <<(h + (lo \div 65536)) % 65536, lo % 65536>>
                      ELSE SumOf(s, i + 1, h + s[i][1], lo + s[i][2])
Plus(s) == SumOf(s, 1, 0, 0)
Rot(a, n) == LET b == IF n >= 16 THEN <<a[2], a[1]>> ELSE a
                 k == 2 ^ (n % 16)
                 q == 65536 \div k
             IN <<(b[1] \div k) + ((b[2] % k) * q), (b[2] \div k) + ((b[1] % k) * q)>>
Shift(a, n) == LET k == 2 ^ n IN <<a[1] \div k, (a[2] \div k) + ((a[1] % k) * (65536 \div k))>>

IV == <<<<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>,
         <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>>>>

(* ---- SHA-256 ---- *)
ShaK == <<<<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>, <<14678, 49755>>, <<23025, 4593>>,
         <<37439, 33444>>, <<43804, 24277>>, <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>,
         <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>, <<58523, 27073>>, <<61374, 18310>>,
         <<4033, 40390>>, <<9228, 41420>>, <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>,
         <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>, <<50912, 3059>>, <<54695, 37191>>,
         <<1738, 25425>>, <<5161, 10599>>, <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>,
         <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>, <<41663, 59553>>, <<43034, 26187>>,
         <<49739, 35696>>, <<51052, 20899>>, <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>,
         <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>, <<14620, 3251>>, <<20184, 43594>>,
         <<23452, 51791>>, <<26670, 28659>>, <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>,
         <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>>>>
Zeros(n) == [i \in 1..n |-> 0]
(* A message of n bytes: 1, zeros, and the number of bits in 64 bits. *)
LengthBE(n) == <<0, 0, 0, n \div 2097152, (n \div 8192) % 256, (n \div 32) % 256, (n % 32) * 8>>
ShaPad(m) == LET n == Len(m)
                 z == (64 - ((n + 9) % 64)) % 64
             IN m \o <<128>> \o Zeros(z + 1) \o LengthBE(n)
WordBE(m, i) == <<m[i] * 256 + m[i + 1], m[i + 2] * 256 + m[i + 3]>>
ShaBlock(m, b) == [i \in 1..16 |-> WordBE(m, 64 * b + (4 * i) - 3)]
Big0(x) == WXor3(Rot(x, 2), Rot(x, 13), Rot(x, 22))
Big1(x) == WXor3(Rot(x, 6), Rot(x, 11), Rot(x, 25))
Small0(x) == WXor3(Rot(x, 7), Rot(x, 18), Shift(x, 3))
Small1(x) == WXor3(Rot(x, 17), Rot(x, 19), Shift(x, 10))
Ch(x, y, z) == WXor(WAnd(x, y), WAnd(Neg(x), z))
Maj(x, y, z) == WXor3(WAnd(x, y), WAnd(x, z), WAnd(y, z))
(* The window of the message schedule: the word of this round first. *)
ShaWin(w) == Append(Tail(w), Plus(<<Small1(w[15]), w[10], Small0(w[2]), w[1]>>))
ShaRound(r, w, v) ==
  LET t1 == Plus(<<v[8], Big1(v[5]), Ch(v[5], v[6], v[7]), ShaK[r + 1], w[1]>>)
      t2 == Plus(<<Big0(v[1]), Maj(v[1], v[2], v[3])>>)
  IN <<Plus(<<t1, t2>>), v[1], v[2], v[3], Plus(<<v[4], t1>>), v[5], v[6], v[7]>>
ShaFinish(h, v) == [i \in 1..8 |-> Plus(<<h[i], v[i]>>)]

(* ---- BLAKE2s ---- *)
Sigma == <<<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>,
           <<14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3>>,
           <<11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4>>,
           <<7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8>>,
           <<9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13>>,
           <<2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9>>,
           <<12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11>>,
           <<13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10>>,
           <<6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5>>,
           <<10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0>>>>
WordLE(m, i) == <<m[i + 3] * 256 + m[i + 2], m[i + 1] * 256 + m[i]>>
(* At least one block; the last one filled with zeros. *)
BlakePad(m) == LET n == Len(m) IN m \o Zeros(IF n = 0 THEN 64 ELSE (64 - (n % 64)) % 64)
BlakeBlock(m, b) == [i \in 1..16 |-> WordLE(m, 64 * b + (4 * i) - 3)]
(* Parameter block: 32 bytes of digest, no key, fanout and depth 1, and the  *)
(* personalization in its last 8 bytes.                                      *)
BlakeInit(pers) == [IV EXCEPT ![1] = WXor(@, <<257, 32>>), ![7] = WXor(@, WordLE(pers, 1)), ![8] = WXor(@, WordLE(pers, 5))]
Split(n) == <<n \div 65536, n % 65536>>
BlakeStart(h, t, last) ==
  LET v == h \o IV
  IN [v EXCEPT ![13] = WXor(@, Split(t)), ![15] = IF last THEN Neg(@) ELSE @]
G(v, a, b, c, d, x, y) ==
  LET a1 == Plus(<<v[a], v[b], x>>)
      d1 == Rot(WXor(v[d], a1), 16)
      c1 == Plus(<<v[c], d1>>)
      b1 == Rot(WXor(v[b], c1), 12)
      a2 == Plus(<<a1, b1, y>>)
      d2 == Rot(WXor(d1, a2), 8)
      c2 == Plus(<<c1, d2>>)
      b2 == Rot(WXor(b1, c2), 7)
  IN [v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
Lanes == <<<<1, 5, 9, 13>>, <<2, 6, 10, 14>>, <<3, 7, 11, 15>>, <<4, 8, 12, 16>>,
           <<1, 6, 11, 16>>, <<2, 7, 12, 13>>, <<3, 8, 9, 14>>, <<4, 5, 10, 15>>>>
(* One of the eight mixings of a round. *)
BlakeMix(r, k, m, v) ==
  LET q == Lanes[k] s == Sigma[r + 1]
  IN G(v, q[1], q[2], q[3], q[4], m[s[2 * k - 1] + 1], m[s[2 * k] + 1])
BlakeFinish(h, v) == [i \in 1..8 |-> WXor3(h[i], v[i], v[i + 8])]
=============================================================================
