------------------------------ MODULE LongHash ------------------------------
(* Digests of messages too long to be written down: a message is given as    *)
(* [pre, n, post], the bytes of pre, n zero bytes, the bytes of post.  The   *)
(* blocks between the ends are equal; ShaRun and KRun absorb k of them and   *)
(* are evaluated natively (SelfTest compares them with these definitions).   *)
EXTENDS Sha512, Keccak

ShaRun(h, blk, k) == LET Step(a, i) == ShaCompress(a, blk) IN FoldN(Step, h, k)
KRun(s, blk, k) == LET Step(a, i) == KAbsorb(a, blk) IN FoldN(Step, s, k)

Zeros(n) == [i \in 1..n |-> 0]
MsgLen(m) == Len(m.pre) + m.n + Len(m.post)
After(pre, m) == [m EXCEPT !.pre = pre \o @]
\* zero bytes that complete the block of the beginning, whole blocks, the rest
Cut(m, r) ==
  LET a == (r - (Len(m.pre) % r)) % r
      k == (m.n - a) \div r
  IN [head |-> m.pre \o Zeros(a), k |-> k, tail |-> Zeros(m.n - a - r * k) \o m.post]

LongShaWith(iv, m) ==
  LET c == Cut(m, 128)
      h == ShaBlocks(ShaRun(ShaBlocks(iv, c.head), Zeros(128), c.k), ShaPad(c.tail, MsgLen(m)))
      w == Tup([i \in 1..8 |-> EncBE(h[i], 8)])
      Cat(acc, i) == acc \o w[i]
  IN IF m.n < 128 THEN ShaWith(iv, m.pre \o Zeros(m.n) \o m.post) ELSE FoldN(Cat, <<>>, 8)
LongSHA512(m) == LongShaWith(ShaH512, m)
LongSHA384(m) == SubSeq(LongShaWith(ShaH384, m), 1, 48)

LongSponge(m, r, ds, outlen) ==
  LET c == Cut(m, r)
      Blocks(s, b) == LET Ab(t, i) == KAbsorb(t, SubSeq(b, r * (i - 1) + 1, r * i)) IN FoldN(Ab, s, Len(b) \div r)
      s0 == Blocks(KRun(Blocks(KZero, c.head), Zeros(r), c.k), KPad(c.tail, r, ds))
  IN IF m.n < r THEN Sponge(m.pre \o Zeros(m.n) \o m.post, r, ds, outlen) ELSE Squeeze(s0, r, outlen)
LongHashOf(alg, m, olen) ==
  CASE alg = 512 -> LongSHA512(m) [] alg = 384 -> LongSHA384(m)
    [] alg = 128 -> LongSponge(m, 168, 31, olen) [] alg = 256 -> LongSponge(m, 136, 31, olen)
    [] OTHER -> LongSponge(m, 200 - (alg - 3000) \div 4, 6, (alg - 3000) \div 8)
=============================================================================
