---------------------------- MODULE DigitBounds -----------------------------
(* Bounds on the digits of the vector representations, and what the          *)
(* operations do to them.  All the transformers are monotone, so bounds      *)
(* cover every element.                                                      *)
EXTENDS FieldMachine, FiniteSets, TLC
CONSTANTS FD, Rep

ND == IF FD = 255 THEN 10 ELSE 16
W(i) == IF FD = 448 THEN 28 ELSE IF i % 2 = 1 THEN 26 ELSE 25     \* 1-based
Cap == Tup([i \in 1..ND |-> CarriedMax(FD, Rep, i)])
\* the multiple of p that subtractions add
TwoP == IF FD = 255 THEN Tup([i \in 1..10 |-> 2 * (2^W(i) - (IF i = 1 THEN 19 ELSE 1))])
        ELSE Tup([i \in 1..16 |-> CASE i = 9 -> 4 * (2^28 - 1) [] i = 10 -> 2 * (2^28 - 2) [] OTHER -> 2 * (2^28 - 1)])
Large == IF FD = 255 THEN Tup([i \in 1..10 |-> 2^(W(i) + 35) - (IF i = 1 THEN 19 ELSE 1) * 2^35])
         ELSE Tup([i \in 1..16 |-> (2^28 - (IF i = 9 THEN 2 ELSE 1)) * 2^35])
Plus(a, b) == Tup([i \in 1..ND |-> a[i] + b[i]])

\* products: sum over the pairs of digits, with the factor with which a pair
\* reaches digit k (0-based)
Fac255(i, j, k) == LET odd == IF i % 2 = 1 /\ j % 2 = 1 THEN 2 ELSE 1
                   IN IF i + j = k THEN odd ELSE IF i + j = k + 10 THEN 19 * odd ELSE 0
\* x^16 = x^8 + 1
Fac448(i, j, k) == LET s == i + j IN
  (IF s = k THEN 1 ELSE 0) + (IF s = k + 16 THEN 1 ELSE 0)
  + (IF k >= 8 /\ s = k + 8 THEN 1 ELSE 0)
  + (IF k >= 8 /\ s = k + 16 THEN 1 ELSE 0)       \* x^24.. folds twice
  + (IF k < 8 /\ s = k + 24 THEN 1 ELSE 0)
Fac(i, j, k) == IF FD = 255 THEN Fac255(i, j, k) ELSE Fac448(i, j, k)
\* the pairs that reach a digit
Pairs == Tup([t \in 1..(ND * ND) |-> <<(t - 1) \div ND, (t - 1) % ND>>])
Terms == Tup([k \in 1..ND |-> SelectSeq(Pairs, LAMBDA q : Fac(q[1], q[2], k - 1) # 0)])
Factors == Tup([k \in 1..ND |-> Tup([t \in 1..Len(Terms[k]) |-> Fac(Terms[k][t][1], Terms[k][t][2], k - 1)])])
Product(a, b) ==
  Tup([k \in 1..ND |->
     LET Add(acc, t) == acc + Factors[k][t] * a[Terms[k][t][1] + 1] * b[Terms[k][t][2] + 1]
     IN FoldN(Add, 0, Len(Terms[k]))])
\* factors as they enter the multiplier
FactorsOK(a, b) ==
  IF FD = 255 THEN \A i \in 1..10 : 2 * a[i] < 2^32 /\ 19 * b[i] < 2^32
  ELSE \A i \in 1..8 : a[i] + a[i + 8] < 2^32 /\ b[i] + b[i + 8] < 2^32 /\ 2 * a[i] < 2^32 /\ 2 * a[i + 8] < 2^32
\* room for the carries in 64 bits: what comes from the digit before
CarryIn(x, i) ==
  IF FD = 255 THEN IF i = 1 THEN 19 * (x[10] \div 2^25) ELSE x[i - 1] \div 2^W(i - 1)
  ELSE IF i = 1 THEN x[16] \div 2^28 ELSE x[i - 1] \div 2^28 + (IF i = 9 THEN x[16] \div 2^28 ELSE 0)
Fits(x) == \A i \in 1..ND : x[i] + CarryIn(x, i) < 2^64
\* one parallel carry
Fast(x) == Tup([i \in 1..ND |-> (IF x[i] < 2^W(i) THEN x[i] ELSE 2^W(i) - 1) + CarryIn(x, i)])
Most(a, b) == Tup([i \in 1..ND |-> IF a[i] >= b[i] THEN a[i] ELSE b[i]])
LE(a, b) == \A i \in 1..ND : a[i] <= b[i]
=============================================================================
