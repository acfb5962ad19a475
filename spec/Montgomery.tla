----------------------------- MODULE Montgomery ----------------------------
(* x-only Montgomery curve arithmetic  y^2 = x^3 + A x^2 + x  over GF(P) and *)
(* the scalar multiplication of RFC 7748, with A24 = (A-2)/4.                *)
EXTENDS BigMath
CONSTANTS P, A24
LOCAL INSTANCE Field

\* one step of the Montgomery ladder on state [a, b, c, d, swap]:
\* (x2 : z2) = (a : b), (x3 : z3) = (c : d)
LStep(st, kt, x1) ==
  LET sw == (st.swap + kt) % 2
      x2 == IF sw = 1 THEN st.x3 ELSE st.x2
      x3 == IF sw = 1 THEN st.x2 ELSE st.x3
      z2 == IF sw = 1 THEN st.z3 ELSE st.z2
      z3 == IF sw = 1 THEN st.z2 ELSE st.z3
      A  == FAdd(x2, z2)
      AA == FSqr(A)
      B  == FSub(x2, z2)
      BB == FSqr(B)
      E  == FSub(AA, BB)
      DA == FMul(FSub(x3, z3), A)
      CB == FMul(FAdd(x3, z3), B)
  IN [ x3 |-> FSqr(FAdd(DA, CB)),
       z3 |-> FMul(x1, FSqr(FSub(DA, CB))),
       x2 |-> FMul(AA, BB),
       z2 |-> FMul(E, FAdd(AA, FMul(A24, E))),
       swap |-> kt ]

LInit(x1) == [x2 |-> 1, z2 |-> 0, x3 |-> x1, z3 |-> 1, swap |-> 0]
LOut(st) == IF st.swap = 1 THEN FDiv(st.x3, st.z3) ELSE FDiv(st.x2, st.z2)

\* [k] applied to the point of abscissa u, the scalar having nbits bits
Ladder(k, u, nbits) ==
  LET x1 == u % P
      Step(st, i) == LStep(st, BitOf(k, nbits - i), x1)
  IN LOut(FoldN(Step, LInit(x1), nbits))
=============================================================================
