------------------------------- MODULE Field -------------------------------
(* The prime field GF(P), P odd.  Elements are the integers 0..P-1.          *)
EXTENDS BigMath
CONSTANT P

FElem == 0..(P - 1)
FRed(a)    == a % P
FAdd(a, b) == (a + b) % P
FSub(a, b) == (a - b) % P
FNeg(a)    == (0 - a) % P
FMul(a, b) == (a * b) % P
FSqr(a)    == (a * a) % P
\* inverse with the convention 1/0 = 0 (Fermat exponentiation), as used by
\* the implementation and by RFC 7748
FInv(a)    == PowMod(a, P - 2, P)
FDiv(a, b) == FMul(a, FInv(b))
\* Legendre symbol as 0, 1, P-1
FChi(a)    == PowMod(a, (P - 1) \div 2, P)
FIsSqr(a)  == FChi(a) # P - 1
\* a square root (of an element that has one), for P = 3 mod 4 and P = 5 mod 8
FSqrt(a) ==
  IF P % 4 = 3 THEN PowMod(a, (P + 1) \div 4, P)
  ELSE LET c == PowMod(a, (P + 3) \div 8, P)
       IN IF FSqr(c) = a % P THEN c
          ELSE FMul(c, PowMod(2, (P - 1) \div 4, P))
\* sign of an element: its least significant bit
FSgn(a) == a % 2
=============================================================================
