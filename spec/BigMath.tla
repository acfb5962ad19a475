------------------------------ MODULE BigMath ------------------------------
(* Operators on (unbounded) integers and byte strings that the specification *)
(* uses everywhere.  Every operator has an ordinary TLA+ definition; TLC     *)
(* evaluates the ones listed in tlc2/module/BigMath.java natively for speed, *)
(* and the module BigMathTest checks that both definitions agree.            *)
(* A byte string is a sequence of integers 0..255; integers are encoded      *)
(* little endian, as everywhere in the implementation.                       *)
EXTENDS Integers, Sequences

\* a^e mod m by square and multiply
PowMod(a, e, m) ==
  LET RECURSIVE Pw(_, _)
      Pw(b, k) == IF k = 0 THEN 1 % m
                  ELSE LET h == Pw((b * b) % m, k \div 2)
                       IN IF k % 2 = 1 THEN (h * b) % m ELSE h
  IN Pw(a % m, e)

\* bit i of n, number of bits of n
BitOf(n, i) == (n \div (2^i)) % 2
BitLen(n) == LET RECURSIVE Bl(_)
                 Bl(k) == IF k = 0 THEN 0 ELSE 1 + Bl(k \div 2)
             IN Bl(n)

\* little-endian value of a byte string / of a sequence of w-bit digits
LeInt(b) == LET RECURSIVE Go(_)
             Go(i) == IF i > Len(b) THEN 0 ELSE b[i] + 256 * Go(i + 1)
         IN Go(1)
\* n-byte little-endian encoding of v
Enc(v, n) == [i \in 1..n |-> (v \div (256^(i-1))) % 256]
\* big-endian versions (hash functions)
BeInt(b) == LET RECURSIVE Go(_, _)
             Go(i, acc) == IF i > Len(b) THEN acc ELSE Go(i + 1, 256 * acc + b[i])
         IN Go(1, 0)
EncBE(v, n) == [i \in 1..n |-> (v \div (256^(n-i))) % 256]

\* bitwise operators on naturals
Xor(a, b) == LET RECURSIVE X(_, _)
                 X(x, y) == IF x = 0 /\ y = 0 THEN 0
                            ELSE ((x + y) % 2) + 2 * X(x \div 2, y \div 2)
             IN X(a, b)
And(a, b) == LET RECURSIVE A(_, _)
                 A(x, y) == IF x = 0 \/ y = 0 THEN 0
                            ELSE ((x % 2) * (y % 2)) + 2 * A(x \div 2, y \div 2)
             IN A(a, b)
\* complement, rotation right and left inside a 64-bit word
Not64(a) == (2^64 - 1) - a
RotR64(a, n) == (a \div (2^n)) + (a % (2^n)) * 2^(64 - n)
RotL64(a, n) == IF n = 0 THEN a ELSE RotR64(a, 64 - n)

\* integer written in decimal / hexadecimal (literals beyond 32 bits)
\* evaluated natively only
Hex(s) == CHOOSE n \in Int : TRUE
\* byte string of a hex string, evaluated natively only
HexBytes(s) == CHOOSE n \in Seq(0..255) : TRUE
\* ASCII codes of a string, evaluated natively only
Ascii(s) == CHOOSE n \in Seq(0..255) : TRUE

\* the events recorded from the implementation: a sequence of records,
\* read from an ndjson file in which "x:0a0b" stands for a byte string and
\* "w:1.ff.2" for the sequence of integers written in hexadecimal.
LoadTrace(file) == CHOOSE n \in Seq(Nat) : TRUE
\* identity on sequences; natively, evaluates all the elements once
Tup(f) == f
\* sum of the products of the elements of two sequences of the same length
Dot(a, b) == LET RECURSIVE D(_)
                 D(i) == IF i > Len(a) THEN 0 ELSE a[i] * b[i] + D(i + 1)
             IN D(1)
\* left fold over 1..n : f(f(f(init,1),2)..,n)
FoldN(f(_, _), init, n) ==
  LET RECURSIVE Go(_, _)
      Go(i, acc) == IF i > n THEN acc ELSE Go(i + 1, f(acc, i))
  IN Go(1, init)
=============================================================================
