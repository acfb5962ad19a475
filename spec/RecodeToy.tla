----------------------------- MODULE RecodeToy -----------------------------
(* The scalar recodings and the sums that use them, exhaustive over all      *)
(* scalars of a small size.                                                  *)
(*  "fold": signed digits base 2^W, one state per digit, N digits; a result  *)
(*     digit D holds -2^(W-1) .. 2^(W-1) - 1.  The digits are then spent in  *)
(*     F lanes (digit F*i + l in lane l), the lanes joined by doublings.     *)
(*  "wnaf": odd digits |D| < 2^(W-1), zero elsewhere, of two scalars at once *)
(*     and the interleaved double-and-add of verification.                   *)
(* The group is the integers modulo M (any cyclic group); B and Q are two of *)
(* its elements.                                                             *)
EXTENDS BigMath, TLC
CONSTANTS Kind, W, N, F, M
Range == 2^(W * N)
VARIABLES r, h,       \* the scalars
          i,          \* digits made
          rest, resth,\* what is left of the scalars
          carry,      \* fold: carry into the next digit
          ds, dh      \* the digits
vars == <<r, h, i, rest, resth, carry, ds, dh>>

Init == /\ r \in 0..(Range - 1) /\ h \in (IF Kind = "wnaf" THEN 0..15 ELSE {0})
        /\ i = 0 /\ rest = r /\ resth = h /\ carry = 0 /\ ds = <<>> /\ dh = <<>>
Fold == LET v == (rest % 2^W) + carry
            c == IF v >= 2^(W - 1) THEN 1 ELSE 0
            \* the library negates bit by bit and keeps W bits
            d == IF c = 1 THEN (2^W - v) % 2^W ELSE v
        IN /\ ds' = Append(ds, IF c = 1 THEN 0 - d ELSE d)
           /\ carry' = c /\ rest' = rest \div 2^W
           /\ UNCHANGED <<resth, dh>>
Odd(x) == LET v == x % 2^W IN IF x % 2 = 0 THEN 0 ELSE IF v > 2^(W - 1) THEN v - 2^W ELSE v
Wnaf == /\ ds' = Append(ds, Odd(rest)) /\ rest' = (rest - Odd(rest)) \div 2
        /\ dh' = Append(dh, Odd(resth)) /\ resth' = (resth - Odd(resth)) \div 2
        /\ UNCHANGED carry
More == IF Kind = "fold" THEN i < N ELSE rest # 0 \/ resth # 0
Next == More /\ i' = i + 1 /\ (IF Kind = "fold" THEN Fold ELSE Wnaf) /\ UNCHANGED <<r, h>>
Spec == Init /\ [][Next]_vars

Step(b) == IF Kind = "fold" THEN 2^W ELSE 2
Value(d) == LET A(acc, k) == acc + d[k] * (Step(0)^(k - 1)) IN FoldN(A, 0, Len(d))
\* at every moment nothing of the scalar is lost
Conserved == /\ Value(ds) + (rest + carry) * Step(0)^i = r
             /\ Kind = "wnaf" => Value(dh) + resth * 2^i = h
\* the table lookups stay in the tables
Bounds == \A k \in 1..Len(ds) :
  IF Kind = "fold" THEN ds[k] >= 0 - 2^(W - 1) /\ ds[k] < 2^(W - 1)
  ELSE ds[k] = 0 \/ (ds[k] % 2 = 1 /\ ds[k] > 0 - 2^(W - 1) /\ ds[k] < 2^(W - 1))
\* nothing is carried out of the top digit for the scalars that occur
NoCarryOut == Kind = "fold" /\ i = N /\ r < 2^(W * N - 1) - 2^(W * (N - 1)) => carry = 0
\* non-adjacent: W - 1 zeros between two odd digits; one digit more than bits
Sparse == Kind = "wnaf" => /\ \A k, j \in 1..Len(ds) : k < j /\ j < k + W => ds[k] = 0 \/ ds[j] = 0
                           /\ i <= W * N + 1
\* ---- the sums ----
Done == ~More
\* lane l sums digit F*k + l times the table entry of position F*k; then the
\* lanes are joined from the last to the first by W doublings
Lane(l) == LET A(acc, k) == IF F * (k - 1) + l < Len(ds) THEN (acc + ds[F * (k - 1) + l + 1] * (2^W)^(F * (k - 1))) % M ELSE acc
           IN FoldN(A, 0, (N + F - 1) \div F)
Joined == LET J(acc, k) == (acc * 2^W + Lane(F - 1 - k)) % M IN FoldN(J, Lane(F - 1), F - 1)
FoldSum == Kind = "fold" /\ Done /\ carry = 0 => Joined = r % M
\* interleaved evaluation of r B - h Q, from the top
Q == 3
Inter == LET n == Len(ds)
             S(acc, k) == (2 * acc + ds[n + 1 - k] - dh[n + 1 - k] * Q) % M
         IN FoldN(S, 0, n)
WnafSum == Kind = "wnaf" /\ Done => Inter = (r - h * Q) % M
=============================================================================
