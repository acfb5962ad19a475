------------------------------- MODULE EdToy --------------------------------
(* The Edwards curves and the signature scheme, exhaustive on a curve with   *)
(* the structure of the real ones (cofactor Cof, prime order L): group law,  *)
(* encodings of all strings, signing, and what each verification equation    *)
(* accepts - for every public key that decodes (small order included), every *)
(* nonce point, every S and every hash value.                                *)
EXTENDS BigMath, FiniteSets, TLC
CONSTANTS P, A, D, Cof, L, GX, GY
F == INSTANCE Field WITH P <- P
E == INSTANCE Edwards WITH P <- P, ACoef <- A, DCoef <- D
Points == {p \in (0..(P - 1)) \X (0..(P - 1)) : E!OnCurve(p)}
\* square roots are taken as on the real curves
ASSUME (P % 4 = 3 \/ P % 8 = 5) /\ F!FIsSqr(A) /\ ~F!FIsSqr(D)
ASSUME Cardinality(Points) = Cof * L
\* a generator of the subgroup of order L
Base == <<GX, GY>>
ASSUME E!OnCurve(Base) /\ Base # E!Ident /\ E!AMul(L, Base) = E!Ident
\* so S is unique below the order: no other S gives the same point
ASSUME \A m, j \in 0..(L - 1) : E!AMul(m, Base) = E!AMul(j, Base) => m = j
VARIABLES phase, x, y, n, k
vars == <<phase, x, y, n, k>>
\* phase "law": two points and a scalar;  "code": a string;
\* "verify": public key x, nonce point y, S = n, hash value k
Init == /\ phase \in {"law?", "mul?", "code?", "sign?", "verify?"} /\ x \in (IF phase \in {"code?", "sign?"} THEN {E!Ident} ELSE Points)
        /\ y = E!Ident /\ n = 0 /\ k = 0
Next == /\ x' = x
        /\ \/ phase = "law?" /\ phase' = "law" /\ y' \in Points /\ n' = 0 /\ k' = 0
           \/ phase = "mul?" /\ phase' = "mul" /\ y' = y /\ n' \in 0..(2 * Cof * L) /\ k' = 0
           \/ phase = "code?" /\ phase' = "code" /\ y' = y /\ n' \in 0..255 /\ k' = 0
           \/ phase = "sign?" /\ phase' = "sign" /\ y' = y /\ n' \in 0..(L - 1) /\ k' \in 0..(L - 1)
           \/ phase = "verify?" /\ phase' = "verify" /\ y' \in Points /\ n' \in 0..(L - 1) /\ k' \in 0..(L - 1)
Spec == Init /\ [][Next]_vars

\* the law is complete, the projective formulas compute it
Law == phase = "law" =>
  /\ E!AAdd(x, y) \in Points
  /\ E!AAdd(x, y) = E!AAdd(y, x)
  /\ E!AAdd(x, E!ANeg(x)) = E!Ident
  /\ E!Aff(E!PAdd(E!Proj(x), E!Proj(y))) = E!AAdd(x, y)
  /\ E!Aff(E!PDbl(E!Proj(x))) = E!AAdd(x, x)
  /\ E!PEq(E!Proj(x), E!Proj(y)) <=> x = y
  /\ E!AAdd(E!AAdd(x, y), Base) = E!AAdd(x, E!AAdd(y, Base))
Mul == phase = "mul" =>
  LET S(acc, j) == E!AAdd(acc, x)
  IN /\ E!AMul(n, x) = FoldN(S, E!Ident, n)
     /\ E!AMul(Cof * L, x) = E!Ident
\* every point has one encoding, every other string decodes to nothing
Codes == phase = "code" =>
  LET q == E!DecodePt(<<n>>)
      all == {p \in Points : E!EncodePt(p, 1) = <<n>>}
  IN /\ Cardinality(all) <= 1
     /\ (q = <<>>) <=> (all = {})
     /\ q # <<>> => q \in all
\* a signature with secret s = n + 1 (mod L), nonce r and hash k
Sign == phase = "sign" =>
  \A r \in {0, 1, n, L - 1} :
    LET s == (n + 1) % L
        S == (r + k * s) % L
        pk == E!AMul(s, Base)
        R == E!AMul(r, Base)
    IN E!AMul(S, Base) = E!AAdd(R, E!AMul(k, pk))
\* the equations a verifier may use
Exact == E!AMul(n, Base) = E!AAdd(y, E!AMul(k, x))
Cofactored == E!AMul(Cof * n, Base) = E!AMul(Cof, E!AAdd(y, E!AMul(k, x)))
\* a verifier that takes h' = Cof * (k / Cof mod L) for k (the library for
\* Ed448, whose arithmetic on an isogenous curve multiplies by the cofactor)
CofInv == PowMod(Cof, L - 2, L)
Cleared == E!AMul(n, Base) = E!AAdd(y, E!AMul(Cof * ((k * CofInv) % L), x))
Torsion(p) == E!AMul(L, p)   \* the component of small order: Cof components
TorsionFree(p) == Torsion(p) = E!Ident
Verify == phase = "verify" =>
  LET ex == Exact
      co == Cofactored
      cl == Cleared
      fx == TorsionFree(x)
      fy == TorsionFree(y)
  IN /\ ex => co
     /\ cl => co
     \* the three agree when no point has a component of small order
     /\ fx /\ fy => (ex <=> co) /\ (ex <=> cl)
     \* accepting by the cofactored equation only takes a small component
     /\ co /\ ~ex => ~fx \/ ~fy
     \* with a nonce point of the prime-order subgroup the cleared equation
     \* accepts all that the exact one does: what it misses (the known
     \* finding) has a nonce point with such a component
     /\ fy /\ ex => cl
     /\ ex /\ ~cl => ~fy /\ ~fx
=============================================================================
