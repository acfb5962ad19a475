------------------------------- MODULE MapToy -------------------------------
(* Hashing to the curve, exhaustive on fields with p = 5 mod 8: the map in   *)
(* the straight line with which it is computed (one exponentiation, selected *)
(* moves, no division, sign of y by the parity), the projective point it     *)
(* hands on, the cofactor cleared before or after the sum - against the      *)
(* definition of Elligator 2 on  y^2 = x^3 + A x^2 + x  and the birational   *)
(* map to  -x^2 + y^2 = 1 + d x^2 y^2.                                       *)
EXTENDS BigMath, FiniteSets, TLC
CONSTANTS P, A, L
D == ((2 - A) * PowMod(A + 2, P - 2, P)) % P
F == INSTANCE Field WITH P <- P
E == INSTANCE Edwards WITH P <- P, ACoef <- P - 1, DCoef <- D
Points == {p \in (0..(P - 1)) \X (0..(P - 1)) : E!OnCurve(p)}
\* a curve of the family of edwards25519
ASSUME /\ P % 8 = 5 /\ ~F!FIsSqr(A * A - 4) /\ F!FIsSqr((0 - A - 2) % P) /\ ~F!FIsSqr(D)
       /\ Cardinality(Points) = 8 * L
\* constants of the straight line
C2 == PowMod(2, (P + 3) \div 8, P)
C3 == PowMod(2, (P - 1) \div 4, P)
C4 == (P - 5) \div 8
Root(a, s) == LET r == F!FSqrt(a) IN IF r % 2 = s THEN r ELSE F!FNeg(r)
C1 == Root((0 - A - 2) % P, 0)
ASSUME F!FSqr(C3) = P - 1 /\ F!FSqr(C1) = (0 - A - 2) % P

\* the definition
Rhs(x) == (x * x * x + A * x * x + x) % P
Elligator(u) ==
  LET x1 == F!FDiv(P - A, F!FAdd(1, 2 * u * u))
      x2 == F!FSub(F!FNeg(x1), A)
  IN IF F!FIsSqr(Rhs(x1)) THEN <<x1, Root(Rhs(x1), 1)>> ELSE <<x2, Root(Rhs(x2), 0)>>
Image(m) == IF m[2] = 0 \/ m[1] = P - 1 THEN E!Ident
            ELSE <<F!FMul(C1, F!FDiv(m[1], m[2])), F!FDiv(m[1] - 1, m[1] + 1)>>
Map(u) == Image(Elligator(u))

\* the straight line; every value modulo P
Line(u) ==
  LET t1  == (2 * u * u) % P
      xd  == (t1 + 1) % P
      x1n == (0 - A) % P
      gxd == (xd * xd * xd) % P
      gx1 == ((A * t1 * x1n + xd * xd) * x1n) % P
      t3  == (gxd * gxd * gxd * gx1) % P          \* gx1 gxd^3
      t2  == (((gxd * gxd * gxd * gxd) % P) * t3) % P \* gx1 gxd^7
      y11 == (PowMod(t2, C4, P) * t3) % P
      y12 == (y11 * C3) % P
      y1  == IF (y11 * y11 * gxd) % P = gx1 THEN y11 ELSE y12
      x2n == (x1n * t1) % P
      y21 == (y11 * u * C2) % P
      y22 == (y21 * C3) % P
      gx2 == (gx1 * t1) % P
      y2  == IF (y21 * y21 * gxd) % P = gx2 THEN y21 ELSE y22
      e3  == (y1 * y1 * gxd) % P = gx1
      y   == IF e3 THEN y1 ELSE y2
  IN [xn |-> IF e3 THEN x1n ELSE x2n, xd |-> xd,
      y  |-> IF e3 # (y % 2 = 1) THEN F!FNeg(y) ELSE y, e3 |-> e3, x1n |-> x1n, gx1 |-> gx1, gxd |-> gxd]
\* its continuation on the Edwards curve, projective
Proj(l) ==
  LET xn == (l.xn * C1) % P
      xd == (l.xd * l.y) % P
      yn == (l.xn - l.xd) % P
      yd == (l.xn + l.xd) % P
      e  == (xd * yd) % P = 0
      a == IF e THEN 0 ELSE xn
      b == IF e THEN 1 ELSE xd
      c == IF e THEN 1 ELSE yn
      d == IF e THEN 1 ELSE yd
  IN [X |-> (a * d) % P, Y |-> (c * b) % P, T |-> (a * c) % P, Z |-> (b * d) % P]
Clear(q) == E!PDbl(E!PDbl(E!PDbl(q)))
P3(q) == [X |-> q.X, Y |-> q.Y, Z |-> q.Z]

VARIABLES ua, ub
vars == <<ua, ub>>
Init == ua \in 0..(P - 1) /\ ub = -1
Next == ub = -1 /\ ub' \in 0..(P - 1) /\ ua' = ua
Spec == Init /\ [][Next]_vars

One == ub = -1 =>
  LET l == Line(ua)
      m == Elligator(ua)
      q == Proj(l)
  IN /\ l.xd # 0                                   \* 2 is no square: never divides by 0
     /\ m[1] = F!FDiv(l.xn, l.xd) /\ m[2] = l.y    \* the definition's point
     /\ F!FSqr(m[2]) = Rhs(m[1])
     /\ (l.y % 2 = 1) = (l.e3 /\ l.y # 0)          \* odd when the first abscissa is taken
     /\ m[1] # P - 1                               \* this exception cannot arise
     /\ m[2] = 0 => ua = 0                          \* the other one only at 0,
     /\ (ua = 0 /\ ~F!FIsSqr(P - A)) => m = <<0, 0>>  \* and there it does (as on curve25519)
     /\ q.Z # 0 /\ F!FMul(q.X, q.Y) = F!FMul(q.T, q.Z)
     /\ E!Aff(P3(q)) = Map(ua) /\ Map(ua) \in Points
     /\ Map(F!FNeg(ua)) = Map(ua)
     /\ Cardinality({w \in 0..(P - 1) : Elligator(w) = m}) = (IF ua = 0 THEN 1 ELSE 2)
Two == ub # -1 =>
  LET q == P3(Proj(Line(ua)))
      s == P3(Proj(Line(ub)))
      r == E!PAdd(Clear(q), Clear(s))
  IN /\ E!PEq(r, Clear(E!PAdd(q, s)))              \* cleared before or after the sum
     /\ E!Aff(r) = E!AMul(8, E!AAdd(Map(ua), Map(ub)))
     /\ E!AMul(L, E!Aff(r)) = E!Ident              \* in the subgroup of order L
=============================================================================
