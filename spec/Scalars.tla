------------------------------ MODULE Scalars -------------------------------
(* Arithmetic modulo the order of the group, one function at a time.         *)
EXTENDS Curves

Part(b, i, n) == LeInt(SubSeq(b, i, i + n - 1))
\* what is reduced
ScalarValue(op, in) ==
  CASE op \in {"red64", "modl"} -> LeInt(in)
    [] op = "div4"  -> LeInt(in)
    [] op = "calcs" -> LET n == Len(in) \div 3 IN Part(in, 1, n) + Part(in, n + 1, n) * Part(in, 2 * n + 1, n)
\* reduce64bits is given 252 bits and at most six more
ScalarPre(fd, op, in) ==
  op = "red64" => /\ Part(in, 33, 8) < 64
                  /\ Part(in, 1, 32) < 2^252
ScalarArg(fd, op, in) ==
  IF op = "red64" THEN Part(in, 1, 32) + Part(in, 33, 8) * 2^252 ELSE ScalarValue(op, in)
\* the reduction for Ed448 ends with a fold at 2^446: it may stop just above
\* the order, which the encoding of S would show only for 2^-220 of all hashes
ScalarOk(fd, op, x, out) ==
  LET r == LeInt(out)
      L == IF fd = 255 THEN L25519 ELSE L448
  IN IF fd = 255 THEN r = x % L
     ELSE /\ ((IF op = "div4" THEN 4 * r ELSE r) - x) % L = 0
          /\ r < 2^446 + 2^230
ScalarEvent(e) ==
  [pre |-> ScalarPre(e.fd, e.op, e.in),
   ok  |-> ScalarOk(e.fd, e.op, ScalarArg(e.fd, e.op, e.in), e.out)]
=============================================================================
