------------------------------- MODULE Curves -------------------------------
(* The concrete constants: RFC 7748 and RFC 8032.                            *)
EXTENDS BigMath
P25519 == 2^255 - 19
P448   == 2^448 - 2^224 - 1
L25519 == 2^252 + Hex("14def9dea2f79cd65812631a5cf5d3ed")
L448   == 2^446 - Hex("8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d")
\* d = -121665/121666 and d = -39081
D25519 == (0 - 121665 * PowMod(121666, P25519 - 2, P25519)) % P25519
D448   == (0 - 39081) % P448

F255 == INSTANCE Field WITH P <- P25519
F448 == INSTANCE Field WITH P <- P448
M255 == INSTANCE Montgomery WITH P <- P25519, A24 <- 121665
M448 == INSTANCE Montgomery WITH P <- P448, A24 <- 39081
E255 == INSTANCE Edwards WITH P <- P25519, ACoef <- P25519 - 1, DCoef <- D25519
E448 == INSTANCE Edwards WITH P <- P448, ACoef <- 1, DCoef <- D448

\* base points: y = 4/5 with even x; RFC 8032 value for edwards448
B25519 == LET y == F255!FDiv(4, 5) IN E255!DecodePt(Enc(y, 32))
B448 == << Hex("4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e"),
           Hex("693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14") >>

ClampX25519(b) == \* RFC 7748 decodeScalar25519
  LET v == LeInt(b) IN (v % 2^254) - (v % 8) + 2^254
ClampX448(b) == LET v == LeInt(b) IN (v % 2^447) - (v % 4) + 2^447

X25519(k, u) == Enc(M255!Ladder(ClampX25519(k), LeInt(u) % 2^255, 255), 32)
X448(k, u) == Enc(M448!Ladder(ClampX448(k), LeInt(u), 448), 56)
=============================================================================
