----------------------------- MODULE HashToCurve ----------------------------
(* Hashing to edwards25519: two field elements from SHA-512 with the         *)
(* prefixes 0 and 1 (reduced modulo the group order, as the implementation   *)
(* documents), the Elligator 2 map of each (definitional form: the first of  *)
(* the two candidate abscissas that lies on the curve), sum, cofactor 8.     *)
EXTENDS Curves, Sha512

HashToField(prefix, msg) == (LeInt(SHA512(<<prefix>> \o msg)) % L25519) % P25519

MontA == 486662
MontRhs(x) == F255!FAdd(F255!FMul(F255!FSqr(x), x), F255!FAdd(F255!FMul(MontA, F255!FSqr(x)), x))
\* square root with the given parity
RootWithSign(a, s) == LET r == F255!FSqrt(a) IN IF r % 2 = s THEN r ELSE F255!FNeg(r)
\* Elligator 2 on  y^2 = x^3 + A x^2 + x  with non-square 2
Elligator2(u) ==
  LET den == F255!FAdd(1, F255!FMul(2, F255!FSqr(u)))
      x1  == IF den = 0 THEN F255!FNeg(MontA) ELSE F255!FDiv(F255!FNeg(MontA), den)
      x2  == F255!FSub(F255!FNeg(x1), MontA)
  IN IF F255!FIsSqr(MontRhs(x1)) THEN <<x1, RootWithSign(MontRhs(x1), 1)>>
     ELSE <<x2, RootWithSign(MontRhs(x2), 0)>>
\* birational map to edwards25519, (0,1) at the exceptional points
SqrtM486664 == RootWithSign(F255!FNeg(486664), 0)
ToEdwards(m) ==
  IF m[2] = 0 \/ F255!FAdd(m[1], 1) = 0 THEN <<0, 1>>
  ELSE << F255!FMul(SqrtM486664, F255!FDiv(m[1], m[2])),
          F255!FDiv(F255!FSub(m[1], 1), F255!FAdd(m[1], 1)) >>
MapToCurve(u) == ToEdwards(Elligator2(u % P25519))
HashToCurve(msg) ==
  LET q0 == MapToCurve(HashToField(0, msg))
      q1 == MapToCurve(HashToField(1, msg))
      s  == E255!PAdd(E255!Proj(q0), E255!Proj(q1))
  IN E255!Aff(E255!PDbl(E255!PDbl(E255!PDbl(s))))
InPrimeOrderSubgroup(pt) ==
  E255!PEq(E255!PMul(L25519, E255!Proj(pt)), E255!PIdent)
=============================================================================
