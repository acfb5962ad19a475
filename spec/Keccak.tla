------------------------------- MODULE Keccak -------------------------------
(* Keccak-f[1600], SHA-3 and SHAKE of FIPS 202 on byte strings.  A state is  *)
(* a sequence of 25 words; lane (x, y) is element x + 5 y + 1.               *)
EXTENDS BigMath

\* rotation offsets, derived from the pi trajectory
RhoTab ==
  LET Step(acc, i) == \* acc = [x, y, off : 1..25 -> 0..63]
        LET t == i - 1
            o == (((t + 1) * (t + 2)) \div 2) % 64
        IN [x |-> acc.y, y |-> (2 * acc.x + 3 * acc.y) % 5,
            off |-> [acc.off EXCEPT ![acc.x + 5 * acc.y + 1] = o]]
  IN FoldN(Step, [x |-> 1, y |-> 0, off |-> Tup([i \in 1..25 |-> 0])], 24).off
Rho == RhoTab
\* round constants, derived from the LFSR x^8 + x^6 + x^5 + x^4 + 1
LfsrBits ==
  LET Step(acc, i) == \* acc = [r, out]
        LET b == acc.r % 2
            s == acc.r * 2
            n == IF s >= 256 THEN Xor(s % 256, 113) ELSE s
        IN [r |-> n, out |-> Append(acc.out, b)]
  IN FoldN(Step, [r |-> 1, out |-> <<>>], 168).out
KeccakRC == Tup([k \in 1..24 |->
  LET Step(acc, j) == IF LfsrBits[7 * (k - 1) + j] = 1 THEN acc + 2^(2^(j - 1) - 1) ELSE acc
  IN FoldN(Step, 0, 7)])

\* lane i = (X, Y) after pi comes from lane (x, y) = (X + 3 Y, X); chi combines
\* lane (X, Y) with lanes (X + 1, Y) and (X + 2, Y)
PiSrc == Tup([i \in 1..25 |->
  LET X == (i - 1) % 5
      Y == (i - 1) \div 5
  IN ((X + 3 * Y) % 5) + 5 * X + 1])
ChiA == Tup([i \in 1..25 |-> (i % 5) + 5 * ((i - 1) \div 5) + 1])
ChiB == Tup([i \in 1..25 |-> ((i + 1) % 5) + 5 * ((i - 1) \div 5) + 1])

Round(s, k) ==
  LET C == Tup([x \in 1..5 |-> Xor(s[x], Xor(s[x + 5], Xor(s[x + 10], Xor(s[x + 15], s[x + 20]))))])
      D == Tup([x \in 1..5 |-> Xor(C[((x + 3) % 5) + 1], RotL64(C[(x % 5) + 1], 1))])
      \* rho and pi: B[y, 2x+3y] = rot(A[x, y]); PiSrc[i] is the source of lane i
      B == Tup([i \in 1..25 |->
              LET j == PiSrc[i] IN RotL64(Xor(s[j], D[((j - 1) % 5) + 1]), Rho[j])])
      N == Tup([i \in 1..25 |-> Xor(B[i], And(Not64(B[ChiA[i]]), B[ChiB[i]]))])
  IN [N EXCEPT ![1] = Xor(@, KeccakRC[k])]
KeccakF(s) == FoldN(Round, s, 24)

KZero == Tup([i \in 1..25 |-> 0])
\* absorb one block of r bytes (r a multiple of 8)
KAbsorb(s, blk) ==
  KeccakF(Tup([i \in 1..25 |-> IF 8 * i <= Len(blk) THEN Xor(s[i], LeInt(SubSeq(blk, 8 * i - 7, 8 * i))) ELSE s[i]]))
KBytes(s) ==
  LET w == Tup([i \in 1..25 |-> Enc(s[i], 8)])
      Cat(acc, i) == acc \o w[i]
  IN FoldN(Cat, <<>>, 25)

\* pad10*1 with domain suffix byte ds, rate r bytes
KPad(m, r, ds) ==
  LET q == r - (Len(m) % r)
  IN IF q = 1 THEN m \o <<ds + 128>>
     ELSE m \o <<ds>> \o [i \in 1..(q - 2) |-> 0] \o <<128>>
Squeeze(s0, r, outlen) ==
  LET Sq(acc, i) == [s |-> IF i * r < outlen THEN KeccakF(acc.s) ELSE acc.s,
                     out |-> acc.out \o SubSeq(KBytes(acc.s), 1, r)]
      n == (outlen + r - 1) \div r
  IN SubSeq(FoldN(Sq, [s |-> s0, out |-> <<>>], n).out, 1, outlen)
Sponge(m, r, ds, outlen) ==
  LET pm == KPad(m, r, ds)
      Ab(s, i) == KAbsorb(s, SubSeq(pm, r * (i - 1) + 1, r * i))
  IN Squeeze(FoldN(Ab, KZero, Len(pm) \div r), r, outlen)

SHAKE128(m, n) == Sponge(m, 168, 31, n)
SHAKE256(m, n) == Sponge(m, 136, 31, n)
\* SHA3-bits
SHA3(bits, m) == Sponge(m, 200 - bits \div 4, 6, bits \div 8)
=============================================================================
