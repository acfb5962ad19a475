------------------------------- MODULE Sha512 -------------------------------
(* SHA-512 and SHA-384 of FIPS 180-4 on byte strings.  The constants are     *)
(* derived from their definition (roots of the first primes).                *)
EXTENDS BigMath
T64 == 2^64

IsPrime(n) == n > 1 /\ \A k \in 2..(n - 1) : k * k > n \/ n % k # 0
FirstPrimes(n) ==
  LET Step(acc, i) == IF Len(acc) < n /\ IsPrime(i) THEN Append(acc, i) ELSE acc
  IN FoldN(Step, <<>>, 420)
\* floor of the k-th root, found bit by bit
IRoot(v, k) ==
  LET Step(r, i) == LET c == r + 2^(80 - i) IN IF c^k <= v THEN c ELSE r
  IN FoldN(Step, 0, 80)
Primes80 == FirstPrimes(80)
ShaK == Tup([i \in 1..80 |-> IRoot(Primes80[i] * 2^192, 3) % T64])
ShaH512 == Tup([i \in 1..8 |-> IRoot(Primes80[i] * 2^128, 2) % T64])
ShaH384 == Tup([i \in 1..8 |-> IRoot(Primes80[i + 8] * 2^128, 2) % T64])

BS0(x) == Xor(RotR64(x, 28), Xor(RotR64(x, 34), RotR64(x, 39)))
BS1(x) == Xor(RotR64(x, 14), Xor(RotR64(x, 18), RotR64(x, 41)))
SS0(x) == Xor(RotR64(x, 1), Xor(RotR64(x, 8), x \div 2^7))
SS1(x) == Xor(RotR64(x, 19), Xor(RotR64(x, 61), x \div 2^6))
Ch(x, y, z) == Xor(And(x, y), And(Not64(x), z))
Maj(x, y, z) == Xor(And(x, y), Xor(And(x, z), And(y, z)))

\* message schedule of one 128-byte block
Schedule(blk) ==
  LET w0 == Tup([i \in 1..16 |-> BeInt(SubSeq(blk, 8 * i - 7, 8 * i))])
      Step(w, i) == LET t == 16 + i
                    IN Append(w, (SS1(w[t - 2]) + w[t - 7] + SS0(w[t - 15]) + w[t - 16]) % T64)
  IN FoldN(Step, w0, 64)
\* the compression function: chaining value h (8 words), 128-byte block
ShaCompress(h, blk) ==
  LET w == Schedule(blk)
      Round(s, i) ==
        LET t1 == s[8] + BS1(s[5]) + Ch(s[5], s[6], s[7]) + ShaK[i] + w[i]
            t2 == BS0(s[1]) + Maj(s[1], s[2], s[3])
        IN << (t1 + t2) % T64, s[1], s[2], s[3], (s[4] + t1) % T64, s[5], s[6], s[7] >>
      r == FoldN(Round, h, 80)
  IN Tup([i \in 1..8 |-> (h[i] + r[i]) % T64])

\* padding of the last (partial) block(s) of a message of n bytes
ShaPad(tail, n) ==
  LET z == (111 - n) % 128
  IN tail \o <<128>> \o [i \in 1..z |-> 0] \o EncBE(8 * n, 16)

ShaBlocks(h, m) ==
  LET Step(acc, i) == ShaCompress(acc, SubSeq(m, 128 * i - 127, 128 * i))
  IN FoldN(Step, h, Len(m) \div 128)
ShaWith(iv, m) ==
  LET h == ShaBlocks(iv, ShaPad(m, Len(m)))
      w == Tup([i \in 1..8 |-> EncBE(h[i], 8)])
      Cat(acc, i) == acc \o w[i]
  IN FoldN(Cat, <<>>, 8)
\* --- messages that end with n bits (0 to 7), the upper ones of the byte ub ---
ShaPadBits(tail, bytes, ub, n) ==
  LET z == (111 - bytes) % 128
      low == 2^(7 - n)      \* the bit that marks the end
      b == (ub \div (2 * low)) * (2 * low) + low
  IN tail \o <<b>> \o [i \in 1..z |-> 0] \o EncBE(8 * bytes + n, 16)
ShaDigest(h) ==
  LET w == Tup([i \in 1..8 |-> EncBE(h[i], 8)])
      Cat(acc, i) == acc \o w[i]
  IN FoldN(Cat, <<>>, 8)
SHA512Bits(m, ub, n) == ShaDigest(ShaBlocks(ShaH512, ShaPadBits(m, Len(m), ub, n)))
SHA384Bits(m, ub, n) == SubSeq(ShaDigest(ShaBlocks(ShaH384, ShaPadBits(m, Len(m), ub, n))), 1, 48)
\* the compression function on words in memory order (little-endian bytes)
ShaCompressWords(vb, mb) ==
  LET v == Tup([i \in 1..8 |-> LeInt(SubSeq(vb, 8 * i - 7, 8 * i))])
      w == Tup([i \in 1..16 |-> EncBE(LeInt(SubSeq(mb, 8 * i - 7, 8 * i)), 8)])
      Blk(acc, i) == acc \o w[i]
      o == ShaCompress(v, FoldN(Blk, <<>>, 16))
      x == Tup([i \in 1..8 |-> EncBE(o[i], 8)])
      \* byte j of word i, least significant first
  IN Tup([k \in 1..64 |-> x[((k - 1) \div 8) + 1][8 - ((k - 1) % 8)]])
SHA512(m) == ShaWith(ShaH512, m)
SHA384(m) == SubSeq(ShaWith(ShaH384, m), 1, 48)
=============================================================================
