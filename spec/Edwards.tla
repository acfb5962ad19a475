------------------------------ MODULE Edwards ------------------------------
(* The (twisted) Edwards curve  a x^2 + y^2 = 1 + d x^2 y^2  over GF(P),     *)
(* with a a square and d a non-square, so that the addition law is complete. *)
(* Points are affine pairs <<x, y>> or projective triples [X, Y, Z].         *)
EXTENDS BigMath
CONSTANTS P, ACoef, DCoef
LOCAL INSTANCE Field

OnCurve(pt) ==
  LET xx == FSqr(pt[1])
      yy == FSqr(pt[2])
  IN FAdd(FMul(ACoef, xx), yy) = FAdd(1, FMul(DCoef, FMul(xx, yy)))
Ident == <<0, 1>>

\* affine group law (the definition)
ANeg(p) == <<FNeg(p[1]), p[2]>>
AAdd(p, q) ==
  LET t == FMul(DCoef, FMul(FMul(p[1], q[1]), FMul(p[2], q[2])))
  IN << FDiv(FAdd(FMul(p[1], q[2]), FMul(p[2], q[1])), FAdd(1, t)),
        FDiv(FSub(FMul(p[2], q[2]), FMul(ACoef, FMul(p[1], q[1]))), FSub(1, t)) >>

\* projective group law
Proj(p) == [X |-> p[1], Y |-> p[2], Z |-> 1]
Aff(q) == LET iz == FInv(q.Z) IN <<FMul(q.X, iz), FMul(q.Y, iz)>>
PIdent == [X |-> 0, Y |-> 1, Z |-> 1]
PNeg(p) == [p EXCEPT !.X = FNeg(@)]
PAdd(p, q) ==
  LET A == FMul(p.Z, q.Z)
      B == FSqr(A)
      C == FMul(p.X, q.X)
      D == FMul(p.Y, q.Y)
      E == FMul(DCoef, FMul(C, D))
      F == FSub(B, E)
      G == FAdd(B, E)
      H == ((p.X + p.Y) * (q.X + q.Y) - C - D) % P
  IN [ X |-> FMul(A, FMul(F, H)),
       Y |-> FMul(A, FMul(G, FSub(D, ACoef * C))),
       Z |-> FMul(F, G) ]
PDbl(p) ==
  LET C == FSqr(p.X)
      D == FSqr(p.Y)
      B == ((p.X + p.Y) * (p.X + p.Y) - C - D) % P
      E == FMul(ACoef, C)
      F == FAdd(E, D)
      J == FSub(F, 2 * FSqr(p.Z))
  IN [ X |-> FMul(B, J), Y |-> FMul(F, FSub(E, D)), Z |-> FMul(F, J) ]
PEq(p, q) == /\ FMul(p.X, q.Z) = FMul(q.X, p.Z)
             /\ FMul(p.Y, q.Z) = FMul(q.Y, p.Z)

\* [k]p by double and add
PMul(k, p) ==
  LET n == BitLen(k)
      Step(acc, i) == LET d == PDbl(acc)
                      IN IF BitOf(k, n - i) = 1 THEN PAdd(d, p) ELSE d
  IN FoldN(Step, PIdent, n)
AMul(k, pt) == Aff(PMul(k, Proj(pt)))

\* RFC 8032 encoding in nb bytes: y, with the parity of x in the top bit of
\* the last byte
EncodePt(pt, nb) == Enc(pt[2] + (pt[1] % 2) * 2^(8 * nb - 1), nb)
\* RFC 8032 decoding: the point, or <<>> when the string encodes none
DecodePt(b) ==
  LET nb   == Len(b)
      v    == LeInt(b)
      sgn  == v \div 2^(8 * nb - 1)
      y    == v % 2^(8 * nb - 1)
      num  == FSub(FSqr(y), 1)
      den  == FSub(FMul(DCoef, FSqr(y)), ACoef)
      xx   == FDiv(num, den)
      x    == FSqrt(xx)
      xs   == IF x % 2 = sgn THEN x ELSE FNeg(x)
  IN IF y >= P THEN <<>>
     ELSE IF ~FIsSqr(xx) THEN <<>>
     ELSE IF x = 0 /\ sgn = 1 THEN <<>>
     ELSE <<xs, y>>
=============================================================================
