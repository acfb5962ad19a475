------------------------------ MODULE LadderToy -----------------------------
(* Why the ladder computes multiples: exhaustive over a small field, all     *)
(* abscissas (of the curve and of its twist, of low order, 0) and all        *)
(* scalars.  Three machines run side by side on every bit: double and add in *)
(* the group defined by chords and tangents, the ladder of RFC 7748 as in    *)
(* Montgomery.tla, and the ladder the library schedules (select the operand  *)
(* of the doubling instead of swapping both registers, no final swap).  The  *)
(* invariants relate the ladders to the group.                               *)
EXTENDS BigMath, TLC
CONSTANTS P, A, N
F == INSTANCE Field WITH P <- P
\* as for the real curves: the twist is a curve of its own, (A-2)/4 an integer
ASSUME A % 4 = 2 /\ ~F!FIsSqr((A * A - 4) % P)
A24 == (A - 2) \div 4
M == INSTANCE Montgomery WITH P <- P, A24 <- A24

\* ---- the group law, on  B y^2 = x^3 + A x^2 + x  with B such that y = 1 ----
Inf == <<"inf">>
Rhs(x) == (x * x * x + A * x * x + x) % P
Start(u) == IF Rhs(u) = 0 THEN <<u, 0>> ELSE <<u, 1>>
Coef(u) == IF Rhs(u) = 0 THEN 1 ELSE Rhs(u)
GAdd(B, p, q) ==
  IF p = Inf THEN q ELSE IF q = Inf THEN p
  ELSE IF p[1] = q[1] /\ (p[2] + q[2]) % P = 0 THEN Inf
  ELSE LET lam == IF p = q THEN F!FDiv((3 * p[1] * p[1] + 2 * A * p[1] + 1) % P, (2 * B * p[2]) % P)
                  ELSE F!FDiv((q[2] - p[2]) % P, (q[1] - p[1]) % P)
           x == (B * lam * lam - A - p[1] - q[1]) % P
       IN <<x, (lam * (p[1] - x) - p[2]) % P>>
\* abscissa with the convention of the functions: 0 for the neutral element
Abscissa(p) == IF p = Inf THEN 0 ELSE p[1]
\* (x : z) stands for the point
Stands(x, z, p) == IF p = Inf THEN x % P # 0 /\ z % P = 0
                   ELSE z % P # 0 /\ (x - p[1] * z) % P = 0
\* u = 0 is of order two; its multiples in the ladder degenerate to (0 : 0)
Degenerate(u) == u = 0

VARIABLES u, k, i, grp, rfc, lib
vars == <<u, k, i, grp, rfc, lib>>
Init == /\ u \in 0..(P - 1) /\ k \in 0..(2^N - 1) /\ i = 0
        /\ grp = Inf
        /\ rfc = M!LInit(u)
        /\ lib = [x2 |-> 1, z2 |-> 0, x3 |-> u, z3 |-> 1, prev |-> 0]
\* the library's step: both products, one doubling of the selected operand
LibStep(st, bit) ==
  LET swap == (bit + st.prev) % 2
      a == (st.x2 + st.z2) % P
      b == (st.x2 - st.z2) % P
      c == (st.x3 + st.z3) % P
      d == (st.x3 - st.z3) % P
      da == (d * a) % P
      cb == (c * b) % P
      s == IF swap = 1 THEN c ELSE a
      t == IF swap = 1 THEN d ELSE b
      aa == (s * s) % P
      bb == (t * t) % P
      e == (aa - bb) % P
  IN [x3 |-> ((da + cb) * (da + cb)) % P, z3 |-> (u * ((da - cb) * (da - cb))) % P,
      x2 |-> (aa * bb) % P, z2 |-> (e * (bb + (A24 + 1) * e)) % P, prev |-> bit]
Next == /\ i < N
        /\ i' = i + 1
        /\ grp' = LET d == GAdd(Coef(u), grp, grp) IN IF BitOf(k, N - i - 1) = 1 THEN GAdd(Coef(u), d, Start(u)) ELSE d
        /\ rfc' = M!LStep(rfc, BitOf(k, N - i - 1), u)
        /\ lib' = LibStep(lib, BitOf(k, N - i - 1))
        /\ UNCHANGED <<u, k>>
Spec == Init /\ [][Next]_vars

\* [prefix]P and [prefix + 1]P, prefix the bits of k seen so far
Low == grp
High == GAdd(Coef(u), grp, Start(u))
\* after i bits the registers hold [prefix]P and [prefix + 1]P, swapped when
\* the last bit was one
RfcMeaning ==
  LET lo == IF rfc.swap = 1 THEN <<rfc.x3, rfc.z3>> ELSE <<rfc.x2, rfc.z2>>
      hi == IF rfc.swap = 1 THEN <<rfc.x2, rfc.z2>> ELSE <<rfc.x3, rfc.z3>>
  IN Degenerate(u) \/ (Stands(lo[1], lo[2], Low) /\ (Stands(hi[1], hi[2], High)))
\* the library's registers: x2 is the doubled one, x3 the sum
LibMeaning ==
  i = 0 \/ Degenerate(u) \/
  (/\ Stands(lib.x2, lib.z2, IF lib.prev = 1 THEN High ELSE Low)
   /\ Stands(lib.x3, lib.z3, IF lib.prev = 1 THEN Low ELSE High))
RfcResult == i = N => M!LOut(rfc) = Abscissa(grp) /\ M!Ladder(k, u, N) = M!LOut(rfc)
\* without a final swap the result is right because clamped scalars are even
LibResult == i = N /\ k % 2 = 0 => F!FDiv(lib.x2, lib.z2) = Abscissa(grp)
\* Diffie-Hellman: the function of a product does not depend on the order
Agree == i = N /\ k < 32 => \A m \in 1..6 : M!Ladder(m, M!Ladder(k, u, N), N) = M!Ladder(k, M!Ladder(m, u, N), N)
=============================================================================
