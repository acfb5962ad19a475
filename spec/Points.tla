------------------------------- MODULE Points -------------------------------
(* The point formulas of the library: what every one of them must compute    *)
(* whatever the projective representation and the digits of its operands.    *)
(* A point is [X, Y, T, Z] with x = X/Z, y = Y/Z, XY = TZ on the curve       *)
(* -x^2 + y^2 = 1 + d x^2 y^2; the arithmetic of Ed448 runs on the curve     *)
(* with d = -39082, 4-isogenous to edwards448.                               *)
EXTENDS FieldMachine

PointD(fd) == IF fd = 255 THEN D25519 ELSE P448 - 39082
Pt(x, y, t, z) == [X |-> x, Y |-> y, T |-> t, Z |-> z]
ValidPt(fd, q) ==
  LET p == PrimeOf(fd)
      xx == q.X * q.X  yy == q.Y * q.Y  zz == q.Z * q.Z
  IN /\ q.Z % p # 0
     /\ (q.X * q.Y - q.T * q.Z) % p = 0
     /\ ((yy - xx) * zz - zz * zz - PointD(fd) * xx * yy) % p = 0
\* table entries: y - x, y + x, 2dt, 2z
OfEntry(fd, s, a, t, z2) ==
  LET p == PrimeOf(fd)
      h == (p + 1) \div 2
  IN Pt(((a - s) * h) % p, ((a + s) * h) % p,
        (t * PowMod(2 * PointD(fd), p - 2, p)) % p, (z2 * h) % p)

\* r denotes the sum of q and s; nothing is claimed at the exceptional points
\* of the addition law (none on edwards25519)
IsSum(fd, r, q, s) ==
  LET p  == PrimeOf(fd)
      zz == (q.Z * s.Z) % p
      m  == (PointD(fd) * ((q.X * s.X) % p) * ((q.Y * s.Y) % p)) % p
      dx == (zz * zz + m) % p
      dy == (zz * zz - m) % p
      nx == (((q.X * s.Y + q.Y * s.X) % p) * zz) % p
      ny == (((q.Y * s.Y + q.X * s.X) % p) * zz) % p
  IN IF dx = 0 \/ dy = 0 THEN fd = 448
     ELSE /\ r.Z % p # 0
          /\ (r.X * dx - nx * r.Z) % p = 0
          /\ (r.Y * dy - ny * r.Z) % p = 0
          /\ (r.X * r.Y - r.T * r.Z) % p = 0
\* the dual isogeny to edwards448
IsImage(r, q) ==
  LET p  == P448
      xx == (q.X * q.X) % p  yy == (q.Y * q.Y) % p
      dx == (yy + xx) % p
      dy == (2 * q.Z * q.Z - yy + xx) % p
  IN IF dx = 0 \/ dy = 0 THEN TRUE
     ELSE /\ r.Z % p # 0
          /\ (r.X * dx - 2 * q.X * q.Y * r.Z) % p = 0
          /\ (r.Y * dy - (yy - xx) * r.Z) % p = 0

\* the points of an operand: v is the sequence of its coordinates, each the
\* sequence of lane integers; way says how they are laid out
PointsOf(fd, v, way) ==
  CASE way = "XYTZ" -> Tup([l \in 1..Len(v[1]) |-> Pt(v[1][l], v[2][l], v[3][l], v[4][l])])
    [] way = "[XY][TZ]" -> <<Pt(v[1][1], v[1][2], v[2][1], v[2][2])>>
    [] way = "[XYTZ]" -> <<Pt(v[1][1], v[1][2], v[1][3], v[1][4])>>
    [] way = "entries" -> Tup([l \in 1..Len(v[1]) |-> OfEntry(fd, v[1][l], v[2][l], v[3][l], 2)])
    [] way = "[entry]" -> <<OfEntry(fd, v[1][1], v[1][2], v[1][3], v[1][4])>>
PointForm(op) ==
  LET F(rep, q, p) == [rep |-> rep, q |-> q, p |-> p] IN
  CASE op = "mix4way" -> F("q", "XYTZ", "entries")
    [] op = "mix4w"   -> F("q", "[XYTZ]", "[entry]")
    [] op = "dbl4w"   -> F("q", "[XYTZ]", "")
    [] op = "add2w"   -> F("t", "[XY][TZ]", "[XY][TZ]")
    [] op = "dbl2w"   -> F("t", "[XY][TZ]", "")
    [] op = "iso2w"   -> F("t", "[XY][TZ]", "")
    [] op = "add2way" -> F("t", "XYTZ", "XYTZ")
    [] op = "dbl2way" -> F("t", "XYTZ", "")
    [] op = "add1w"   -> F("f", "XYTZ", "XYTZ")
    [] op = "dbl1w"   -> F("f", "XYTZ", "")
PointEvent(e) ==
  LET fd == e.fd
      f  == PointForm(e.op)
      Ints(v) == Tup([k \in 1..Len(v) |-> LaneInts(fd, f.rep, v[k])])
      q  == PointsOf(fd, Ints(e.q), f.q)
      p  == IF f.p = "" THEN q ELSE PointsOf(fd, Ints(e.p), f.p)
      r  == PointsOf(fd, Ints(e.o), f.q)
  IN [pre |-> /\ \A l \in 1..Len(q) : ValidPt(fd, q[l]) /\ ValidPt(fd, p[l])
              /\ \A k \in 1..Len(e.q) : Carried(fd, f.rep, e.q[k])
              /\ \A k \in 1..Len(e.p) : Carried(fd, f.rep, e.p[k]),
      ok |-> /\ \A l \in 1..Len(q) : IF e.op = "iso2w" THEN IsImage(r[l], q[l]) ELSE IsSum(fd, r[l], q[l], p[l])
             /\ \A k \in 1..Len(e.o) : Carried(fd, f.rep, e.o[k])]
=============================================================================
