---------------------------- MODULE PointFormulas ---------------------------
(* The point formulas of the vector representations as straight lines over   *)
(* field operations, each run in two interpretations:                        *)
(*  - on digit bounds (DigitBounds): from coordinates and table entries that *)
(*    are carried, no factor exceeds 32 bits, no sum of products 64, nothing *)
(*    borrows, and the coordinates of the result are carried again, so any   *)
(*    number of formulas can follow each other;                              *)
(*  - on every pair of points of a toy curve, in every representation with   *)
(*    Z in Zs: the result is a representation of the sum (the double, the    *)
(*    image under the dual isogeny).                                         *)
EXTENDS DigitBounds
CONSTANTS P, D, Zs
F == INSTANCE Field WITH P <- P
E == INSTANCE Edwards WITH P <- P, ACoef <- P - 1, DCoef <- D

\* an instruction: operation, destination, operands
I(op, c, a, b) == <<op, c, a, b>>
Mul4(x, y, t, z, e, f, g, h) == <<I("mul", x, e, f), I("mul", y, g, h), I("mul", t, e, h), I("mul", z, f, g)>>
Each(op, l) == Tup([i \in 1..Len(l) |-> I(op, l[i], l[i], l[i])])
Out == <<"X", "Y", "T", "Z">>
Ladder(a, b) ==
  <<I("add", "A", "X2", "Z2"), I("sub", "B", "X2", "Z2"), I("add", "C", "X3", "Z3"), I("sub", "D", "X3", "Z3"),
    I("mul", "m", "A", "D"), I("mul", "w", "C", "B")>> \o Each("carry", <<"m", "w">>)
  \o <<I("add", "u", "w", "m"), I("sub", "v", "w", "m")>>
  \o (IF FD = 448 THEN Each("fast", <<"u", "v", a, b>>) ELSE <<>>)
  \o <<I("mul", "F", a, a), I("mul", "G", b, b), I("mul", "u", "u", "u"), I("mul", "v", "v", "v")>>
  \o Each("carry", <<"F", "G", "u", "v">>)
  \o <<I("mul", "X2", "F", "G"), I("mul1", "X3", "u", "u")>> \o Each("carry", <<"X2", "X3">>)
  \o <<I("sub", "E", "F", "G"), I("a24", "H", "E", "E"), I("add", "H", "H", "F")>> \o Each("fast", <<"H", "X1">>)
  \o <<I("mul", "Z2", "E", "H"), I("mul", "Z3", "v", "X1")>> \o Each("carry", <<"Z2", "Z3">>)
\* the operand of a mixed addition: s = y - x, a = y + x, t = 2d xy, z = 2
Prog ==
  [ mix4way |-> <<I("add", "u", "Y", "X"), I("sub", "v", "Y", "X"), I("mul", "A", "v", "s"), I("mul", "B", "u", "a"),
                  I("mul", "C", "t", "T"), I("add", "D", "Z", "Z")>> \o Each("carry", <<"C", "D">>)
                \o <<I("subL", "E", "B", "A"), I("add", "H", "B", "A"), I("subL", "F", "D", "C"), I("add", "G", "D", "C")>>
                \o Each("carry", <<"E", "F", "G", "H">>)
                \o <<I("mul", "X", "E", "F"), I("mul", "T", "E", "H"), I("mul", "Z", "G", "F"), I("mul", "Y", "G", "H")>> \o Each("carry", Out),
    mix4w   |-> <<I("sub", "v", "Y", "X"), I("add", "u", "Y", "X"), I("mul", "A", "v", "s"), I("mul", "B", "u", "a"),
                  I("mul", "C", "T", "t"), I("mul", "D", "Z", "z"), I("subL", "E", "B", "A"), I("add", "H", "B", "A"),
                  I("subL", "F", "D", "C"), I("add", "G", "D", "C")>>
                \o (IF FD = 255 THEN <<I("addL", "H", "H", "H"), I("addL", "G", "G", "G")>> ELSE <<>>)
                \o Each("carry", <<"E", "F", "G", "H">>)
                \o <<I("mul", "X", "E", "F"), I("mul", "Y", "G", "H"), I("mul", "T", "H", "E"), I("mul", "Z", "F", "G")>> \o Each("carry", Out),
    \* f = -F and h = -H
    dbl4w   |-> <<I("mul", "A", "X", "X"), I("mul", "B", "Y", "Y"), I("mul", "E", "T", "Z"), I("mul", "C", "Z", "Z"),
                  I("add", "E", "E", "E"), I("add", "C", "C", "C"), I("add", "C", "C", "A"),
                  I("add", "h", "B", "A")>>
                \o (IF FD = 255 THEN <<I("subL", "f", "C", "B"), I("subL", "G", "B", "A"), I("addL", "h", "h", "h"), I("addL", "E", "E", "E")>>
                    ELSE <<I("subH", "f", "C", "B"), I("subH", "G", "B", "A"), I("addH", "h", "h", "h"), I("addH", "E", "E", "E")>>)
                \o Each("carry", <<"E", "f", "G", "h">>)
                \o <<I("mul", "X", "E", "f"), I("mul", "Y", "G", "h"), I("mul", "T", "h", "E"), I("mul", "Z", "f", "G")>> \o Each("carry", Out),
    \* m = -A
    add2w   |-> <<I("sub", "v", "X", "Y"), I("add", "u", "Y", "X"), I("sub", "s", "Y2", "X2"), I("add", "a", "Y2", "X2")>>
                \o (IF FD = 448 THEN Each("fast", <<"v", "u", "s", "a">>) ELSE <<>>)
                \o <<I("mul", "m", "v", "s"), I("mul", "B", "u", "a"), I("mul", "C", "T", "T2"), I("mul", "D", "Z", "Z2")>>
                \o Each("carry", <<"C", "D">>) \o <<I("mul2d", "C", "C", "C"), I("mul2", "D", "D", "D")>>
                \o (IF FD = 255 THEN Each("fast", <<"m", "B">>) ELSE <<>>)
                \o <<I("add", "E", "B", "m"), I("add", "G", "D", "C"), I("subL", "H", "B", "m"), I("subL", "F", "D", "C")>>
                \o Each("carry", <<"E", "F", "G", "H">>)
                \o <<I("mul", "X", "F", "E"), I("mul", "Y", "H", "G"), I("mul", "T", "H", "E"), I("mul", "Z", "F", "G")>> \o Each("carry", Out),
    mix2w   |-> <<I("sub", "v", "X", "Y"), I("add", "u", "Y", "X"), I("mul", "m", "v", "s"), I("mul", "B", "u", "a"),
                  I("mul", "C", "T", "t"), I("mul", "D", "Z", "z"),
                  I("add", "E", "B", "m"), I("add", "G", "D", "C"), I("subL", "H", "B", "m"), I("subL", "F", "D", "C")>>
                \o Each("carry", <<"E", "F", "G", "H">>)
                \o <<I("mul", "X", "F", "E"), I("mul", "Y", "H", "G"), I("mul", "T", "H", "E"), I("mul", "Z", "F", "G")>> \o Each("carry", Out),
    dbl2w   |-> <<I("mul", "A", "X", "X"), I("mul", "B", "Y", "Y"), I("mul", "E", "T", "Z"), I("mul", "C", "Z", "Z"),
                  I("add", "E", "E", "E"), I("add", "C", "C", "C"), I("addL", "E", "E", "E"), I("subL", "G", "B", "A"),
                  I("add", "w", "A", "B"), I("negL", "H", "w", "w"), I("add", "w", "A", "C"), I("subL", "F", "B", "w")>>
                \o Each("carry", <<"E", "F", "G", "H">>)
                \o <<I("mul", "X", "F", "E"), I("mul", "Y", "H", "G"), I("mul", "T", "H", "E"), I("mul", "Z", "F", "G")>> \o Each("carry", Out),
    dbl2way |-> <<I("add", "T", "X", "Y")>> \o Each("fast", <<"T">>)
                \o <<I("mul", "T", "T", "T"), I("mul", "A", "X", "X"), I("mul", "B", "Y", "Y"), I("mul", "C", "Z", "Z")>>
                \o Each("carry", <<"T", "A", "B", "C">>) \o <<I("add", "C", "C", "C")>> \o Each("fast", <<"C">>)
                \o <<I("neg2", "H", "A", "B"), I("sub", "G", "B", "A")>> \o Each("fast", <<"H", "G">>)
                \o <<I("add", "E", "T", "H"), I("sub", "F", "G", "C")>> \o Each("fast", <<"E", "F">>)
                \o <<I("mul", "X", "E", "F"), I("mul", "Y", "G", "H"), I("mul", "Z", "F", "G"), I("mul", "T", "E", "H")>> \o Each("carry", Out),
    add2way |-> <<I("add", "Z", "Z", "Z"), I("add", "u", "Y", "X"), I("sub", "v", "Y", "X"), I("add", "a", "Y2", "X2"), I("sub", "s", "Y2", "X2")>>
                \o Each("fast", <<"a", "s">>) \o <<I("mul", "A", "v", "s"), I("mul", "B", "u", "a"), I("mul", "C", "T", "T2")>>
                \o Each("carry", <<"A", "B", "C">>) \o <<I("mul2d", "C", "C", "C"), I("mul", "D", "Z", "Z2")>> \o Each("carry", <<"C", "D">>)
                \o <<I("add", "H", "B", "A"), I("sub", "E", "B", "A"), I("add", "G", "D", "C"), I("sub", "F", "D", "C")>>
                \o Each("fast", <<"F", "H">>)
                \o <<I("mul", "X", "E", "F"), I("mul", "T", "E", "H"), I("mul", "Z", "G", "F"), I("mul", "Y", "G", "H")>> \o Each("carry", Out),
    iso2w   |-> <<I("mul", "A", "X", "X"), I("mul", "B", "Y", "Y"), I("mul", "E", "T", "Z"), I("mul", "C", "Z", "Z"),
                  I("add", "E", "E", "E"), I("add", "C", "C", "C"), I("add", "w", "C", "A"), I("add", "H", "B", "A"),
                  I("subL", "f", "B", "w"), I("subL", "g", "A", "B")>> \o Each("carry", <<"E", "f", "g", "H">>)
                \o <<I("mul", "X", "f", "E"), I("mul", "Y", "H", "g"), I("mul", "Z", "H", "f")>> \o Each("carry", <<"X", "Y", "Z">>),
    \* a step of the ladder, whose doubled operand is the first or the second
    ladder0 |-> Ladder("A", "B"), ladder1 |-> Ladder("C", "D") ]
Formulas == IF FD = 255
  THEN IF Rep = "q" THEN {"mix4way", "mix4w", "dbl4w"} ELSE {"add2w", "mix2w", "dbl2w", "dbl2way", "add2way"}
  ELSE IF Rep = "q" THEN {"mix4way", "mix4w", "dbl4w"} ELSE {"add2w", "mix2w", "dbl2w", "iso2w"}
Regs == {"X1", "X3", "Z3", "X", "Y", "T", "Z", "X2", "Y2", "T2", "Z2", "s", "a", "t", "z", "u", "v", "w", "m", "A", "B", "C", "D", "E", "F", "G", "H", "f", "g", "h"}
\* 2^34 p instead of 2^35 p
HalfL == Tup([i \in 1..ND |-> Large[i] \div 2])
FourP == Plus(TwoP, TwoP)
\* digits after a full carry: the last carry into digit 1 (and 6, 9) is at most
\* 19 * 2^39 / 2^26
Full == Tup([i \in 1..ND |-> 2^W(i) + 2^(W(i) - 6)])
Two == Tup([i \in 1..ND |-> IF i = 1 THEN 2 ELSE 0])
One1 == Tup([i \in 1..ND |-> IF i = 1 THEN 1 ELSE 0])

\* on bounds: what an instruction needs, what it gives
Need(op, a, b) ==
  CASE op \in {"add", "addL", "addH"} -> TRUE      \* room is asked for where digits are carried or multiplied
    [] op = "sub" -> LE(b, TwoP)
    [] op = "neg2" -> LE(a, TwoP) /\ LE(b, TwoP)
    [] op = "subL" -> LE(b, Large) [] op = "subH" -> LE(b, HalfL) [] op = "negL" -> LE(a, Large)
    [] op = "mul" -> FactorsOK(a, b) /\ Fits(Product(a, b))
    [] op = "mul2d" -> FactorsOK(a, Cap) /\ Fits(Product(a, Cap))
    [] op = "mul2" -> FactorsOK(a, Two) /\ Fits(Product(a, Two))
    [] op = "mul1" -> FactorsOK(One1, a) /\ Fits(Product(One1, a))
    [] op = "a24" -> \A i \in 1..ND : a[i] < 2^32
    [] op = "carry" -> Fits(a)
    [] op = "fast" -> Fits(a)
Gives(op, a, b) ==
  CASE op = "add" -> Plus(a, b) [] op = "sub" -> Plus(a, TwoP) [] op = "neg2" -> FourP
    [] op = "subL" -> Plus(a, Large) [] op = "subH" -> Plus(a, HalfL) [] op = "negL" -> Large
    [] op = "addL" -> Plus(a, Large) [] op = "addH" -> Plus(a, HalfL)
    [] op = "mul" -> Product(a, b) [] op = "mul2d" -> Product(a, Cap) [] op = "mul2" -> Product(a, Two)
    [] op = "mul1" -> Product(One1, a) [] op = "a24" -> Tup([i \in 1..ND |-> (A24Of(FD) - 1) * a[i]])
    [] op = "carry" -> Full [] op = "fast" -> Fast(a)
\* sums and differences that are neither carried nor multiplied before they
\* wrap would go unnoticed: no register exceeds 64 bits
Small(x) == \A i \in 1..ND : x[i] < 2^64
\* on values modulo P
Value(op, a, b) ==
  CASE op = "add" -> F!FAdd(a, b) [] op \in {"sub", "subL", "subH"} -> F!FSub(a, b) [] op = "neg2" -> F!FNeg(a + b)
    [] op = "negL" -> F!FNeg(a) [] op = "mul" -> F!FMul(a, b) [] op = "mul2d" -> F!FMul(2 * D, a) [] op = "mul2" -> F!FMul(2, a)
    [] op = "a24" -> F!FMul(A24Of(FD) - 1, a)
    [] op \in {"addL", "addH", "carry", "fast", "mul1"} -> a

Points == {p \in (0..(P - 1)) \X (0..(P - 1)) : E!OnCurve(p)}
\* the law is only complete when -1 is a square
Defined(p, q) == LET m == F!FMul(D, F!FMul(F!FMul(p[1], q[1]), F!FMul(p[2], q[2]))) IN F!FAdd(1, m) # 0 /\ F!FSub(1, m) # 0
Doubling == {"dbl4w", "dbl2w", "dbl2way", "iso2w"}

VARIABLES name,  \* the formula
          pc,    \* the next instruction
          reg,   \* register -> digit bounds
          ok,    \* what the last instruction needed
          pt     \* <<>>, or an operand <<point, its Z>>
vars == <<name, pc, reg, ok, pt>>
Inputs == {"X1", "X3", "Z3", "X", "Y", "T", "Z", "X2", "Y2", "T2", "Z2", "s", "a", "t", "z"}
\* points and tables of multiples are made of formulas that carry in full; the
\* four-lane formulas bear what the fast carry leaves
Bounds == [r \in Regs |-> IF r \in Inputs THEN (IF Rep = "t" THEN Full ELSE Cap) ELSE <<>>]
Init == /\ name \in Formulas /\ pc = 1 /\ ok = TRUE
        /\ \/ pt = <<>> /\ reg = Bounds
           \/ \E p \in Points, z \in Zs : pt = <<p, z>> /\ reg = <<>>
\* on bounds, one instruction at a time
Next == /\ pt = <<>> /\ pc <= Len(Prog[name])
        /\ LET i == Prog[name][pc] x == reg[i[3]] y == reg[i[4]]
           IN /\ ok' = (x # <<>> /\ y # <<>> /\ Need(i[1], x, y) /\ Small(Gives(i[1], x, y)))
              /\ reg' = [reg EXCEPT ![i[2]] = Gives(i[1], x, y)]
        /\ pc' = pc + 1 /\ UNCHANGED <<name, pt>>
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
NoOverflow == ok
Carries == pt = <<>> /\ pc = Len(Prog[name]) + 1 =>
  \A r \in (IF name = "iso2w" THEN {"X", "Y", "Z"} ELSE {"X", "Y", "T", "Z"}) : LE(reg[r], Full) /\ LE(Full, Cap)
\* on values, the whole line against every second operand
Values(p, z, q, y) ==
  [r \in Regs |-> CASE r = "X" -> F!FMul(p[1], z) [] r = "Y" -> F!FMul(p[2], z) [] r = "T" -> F!FMul(F!FMul(p[1], p[2]), z) [] r = "Z" -> z
                    [] r = "X2" -> F!FMul(q[1], y) [] r = "Y2" -> F!FMul(q[2], y) [] r = "T2" -> F!FMul(F!FMul(q[1], q[2]), y) [] r = "Z2" -> y
                    [] r = "s" -> F!FSub(q[2], q[1]) [] r = "a" -> F!FAdd(q[1], q[2]) [] r = "t" -> F!FMul(2 * D, F!FMul(q[1], q[2])) [] r = "z" -> 2
                    [] OTHER -> 0]
Run(p, z, q, y) ==
  LET One(m, k) == LET i == Prog[name][k] IN [m EXCEPT ![i[2]] = Value(i[1], m[i[3]], m[i[4]])]
  IN FoldN(One, Values(p, z, q, y), Len(Prog[name]))
Image(r, p) ==
  LET A == F!FSqr(p[1])  B == F!FSqr(p[2])
      n == F!FAdd(A, B)  m == F!FSub(2 + A, B)
  IN n # 0 /\ m # 0 => /\ r["Z"] # 0 /\ F!FMul(r["X"], n) = F!FMul(r["Z"], F!FMul(2, F!FMul(p[1], p[2])))
                       /\ F!FMul(r["Y"], m) = F!FMul(r["Z"], F!FSub(B, A))
Sum(r, p, q) ==
  Defined(p, q) =>
    LET v == E!AAdd(p, q)
    IN /\ r["Z"] # 0 /\ F!FMul(r["X"], r["Y"]) = F!FMul(r["T"], r["Z"])
       /\ r["X"] = F!FMul(v[1], r["Z"]) /\ r["Y"] = F!FMul(v[2], r["Z"])
Sums == pt # <<>> =>
  IF name = "iso2w" THEN Image(Run(pt[1], pt[2], pt[1], 1), pt[1])
  ELSE IF name \in Doubling THEN Sum(Run(pt[1], pt[2], pt[1], 1), pt[1], pt[1])
  ELSE \A q \in Points : \A y \in (IF name \in {"add2w", "add2way"} THEN Zs ELSE {1}) : Sum(Run(pt[1], pt[2], q, y), pt[1], q)
=============================================================================
