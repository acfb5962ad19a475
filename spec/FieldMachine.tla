---------------------------- MODULE FieldMachine ----------------------------
(* The field arithmetic interface as a register machine.  A register file    *)
(* holds field elements in one of the representations                        *)
(*   f  64-bit words (full radix), one element      w  double-length product *)
(*   g  two full-radix elements                     v  two products          *)
(*   r / t / q  reduced radix, one / two / four elements (lanes)             *)
(* A register is [x |-> lane integers, lev |-> carry level]; its value is    *)
(* x mod p per lane.  Levels of the reduced-radix representations:           *)
(*   0  carried: admissible for everything                                   *)
(*   1  result of one addition or subtraction of carried elements            *)
(*   2  double-length product waiting for a reduction ("compress")           *)
(*   3  sum or difference of products, waiting for a reduction               *)
(*   4  product of two level-1 elements, waiting for a reduction             *)
(* Every operation is described by its precondition on levels, its result    *)
(* per lane and the level of the result.  The module is used three ways:     *)
(* FieldGen generates command sequences from it, Trace checks the recorded   *)
(* behaviour of the implementation against it, RadixBounds explores it.         *)
EXTENDS Curves

PrimeOf(fd) == IF fd = 255 THEN P25519 ELSE P448
LanesOf(rep) == CASE rep \in {"f", "w", "r"} -> 1 [] rep \in {"g", "v", "t"} -> 2 [] rep = "q" -> 4
Red(rep) == rep \in {"r", "t", "q"}
A24Of(fd) == IF fd = 255 THEN 121666 ELSE 39082
BytesOf(fd) == IF fd = 255 THEN 32 ELSE 56

\* the digit weights of a lane
WeightsF == [i \in 1..14 |-> 2^(64 * (i - 1))]
Weights255 == Tup([i \in 1..10 |-> 2^((51 * (i - 1) + 1) \div 2)])
Weights448 == Tup([i \in 1..16 |-> 2^(28 * (i - 1))])
WF4 == Tup([i \in 1..4 |-> 2^(64 * (i - 1))])
WF7 == Tup([i \in 1..7 |-> 2^(64 * (i - 1))])
WF8 == Tup([i \in 1..8 |-> 2^(64 * (i - 1))])
WF14 == Tup([i \in 1..14 |-> 2^(64 * (i - 1))])
WeightsOf(fd, rep) ==
  IF Red(rep) THEN (IF fd = 255 THEN Weights255 ELSE Weights448)
  ELSE IF rep \in {"f", "g"} THEN (IF fd = 255 THEN WF4 ELSE WF7)
  ELSE (IF fd = 255 THEN WF8 ELSE WF14)
\* lane integers of recorded digits
LaneInts(fd, rep, digs) == LET w == WeightsOf(fd, rep) IN Tup([l \in 1..Len(digs) |-> Dot(digs[l], w)])

\* carried digits: above their nominal size by at most an eighth, in the
\* four-element representation a sixteenth.  RadixBounds shows that from there
\* no sequence of admissible operations overflows.
DigitBits(fd, i) == IF fd = 448 THEN 28 ELSE IF i % 2 = 1 THEN 26 ELSE 25
CarriedMax(fd, rep, i) == 2^DigitBits(fd, i) + 2^(DigitBits(fd, i) - (IF rep = "q" THEN 4 ELSE 3))
Carried255 == Tup([i \in 1..10 |-> CarriedMax(255, "t", i)])
Carried448 == Tup([i \in 1..16 |-> CarriedMax(448, "t", i)])
Carried255q == Tup([i \in 1..10 |-> CarriedMax(255, "q", i)])
Carried448q == Tup([i \in 1..16 |-> CarriedMax(448, "q", i)])
Carried(fd, rep, digs) ==
  ~Red(rep) \/ LET m == IF rep = "q" THEN (IF fd = 255 THEN Carried255q ELSE Carried448q)
                         ELSE (IF fd = 255 THEN Carried255 ELSE Carried448)
               IN \A l \in 1..Len(digs) : \A i \in 1..Len(m) : digs[l][i] <= m[i]

\* --- field operations with the conventions of the interface ---
FInvP(a, p) == PowMod(a, p - 2, p)
FIsSq(a, p) == PowMod(a, (p - 1) \div 2, p) # p - 1
Half(p) == (p - 1) \div 2

\* the register an operation writes, as representations of c, d, a, b
\* ("" when the operand is not used); two-element versions included
Operands(rep, op) ==
  LET R(c, d, a, b) == [c |-> c, d |-> d, a |-> a, b |-> b] IN
  CASE op \in {"add", "sub", "mul", "cmv"} -> R(rep, "", rep, rep)
    [] op \in {"neg", "sqr", "compress", "compressfast", "zero", "unser", "prime", "set"} -> R(rep, "", "", "")
    [] op \in {"inv", "srt", "copy", "ngz", "mula24"} -> R(rep, "", rep, "")
    [] op \in {"cmp", "compress2", "new_compressfast2", "addsublar"} -> R("", "", rep, rep)
    [] op \in {"sgn", "ser", "print"} -> R("", "", rep, "")
    [] op = "addsub" -> IF rep = "q" THEN R("q", "q", "q", "q") ELSE R("", "", rep, rep)
    [] op = "intmul" -> R(IF rep = "f" THEN "w" ELSE rep, "", rep, rep)
    [] op = "intsqr" -> IF rep = "f" THEN R("w", "", "f", "") ELSE R(rep, "", "", "")
    [] op = "reduce" -> R("f", "", "w", "")
    [] op = "intmul2" -> R("v", "", "g", "g")
    [] op = "intsqr2" -> R("v", "", "g", "")
    [] op = "reduce2" -> R("g", "", "v", "")
    [] op = "inter" -> R("t", "", "r", "r")
    [] op = "deinter" -> R("r", "r", "t", "")

\* operations of each representation; those some table leaves out
OpsF == {"add", "sub", "mul", "neg", "sqr", "inv", "srt", "cmp", "cmv", "sgn", "prime", "copy", "zero",
         "ser", "unser", "mula24", "intmul", "intsqr", "reduce", "intmul2", "intsqr2", "reduce2"}
OpsR == {"add", "sub", "mul", "neg", "sqr", "inv", "srt", "cmp", "cmv", "sgn", "prime", "copy", "zero",
         "ser", "unser", "addsub", "intmul", "compress", "compressfast"}
OpsT == {"add", "sub", "mul", "neg", "ngz", "sqr", "cmp", "cmv", "sgn", "copy", "zero", "ser", "unser",
         "addsub", "deinter", "inter", "intmul", "intsqr", "compress", "compressfast", "compress2"}
OpsQ == {"add", "sub", "mul", "neg", "ngz", "sqr", "srt", "cmp", "copy", "zero", "ser", "unser", "addsub",
         "addsublar", "intmul", "intsqr", "compress", "compressfast", "compress2", "new_compressfast2"}
MayBeAbsent(fd, rep, op) ==
  fd = 448 /\ <<rep, op>> \in { <<"f", "srt">>, <<"r", "cmv">>, <<"r", "sgn">>, <<"t", "cmv">>, <<"t", "neg">>,
                                <<"t", "sgn">>, <<"q", "neg">>, <<"q", "srt">> }
OpsOf(fd, rep) ==
  {o \in (CASE rep = "f" -> OpsF [] rep = "r" -> OpsR [] rep = "t" -> OpsT [] rep = "q" -> OpsQ) :
     ~MayBeAbsent(fd, rep, o)}

\* --- the contract on carry levels ---
\* la, lb, lc: levels of operands a, b and of the old contents of c
LevelsOK(fd, rep, op, lc, la, lb) ==
  IF rep \in {"f", "g", "w", "v"} THEN TRUE
  ELSE CASE op \in {"add", "sub", "addsub", "inv", "ngz", "prime"} -> la = 0 /\ lb = 0
         [] op = "addsublar" -> la = lb /\ la <= 2
         [] op \in {"mul", "intmul"} -> IF fd = 255 THEN la <= 1 /\ lb <= 1 ELSE la + lb <= 1
         [] op \in {"sqr", "intsqr"} -> IF fd = 255 THEN lc <= 1 ELSE lc = 0
         [] op = "neg" -> lc = 0
         [] op = "srt" -> la = 0 /\ (fd = 255 => lc = 0)
         [] op \in {"cmp", "sgn", "ser", "print"} -> la = 0 /\ lb = 0
         [] op = "compress" -> TRUE
         [] op = "compressfast" -> lc <= 2
         [] op = "compress2" -> TRUE
         [] op = "new_compressfast2" -> la <= 1 /\ lb <= 1
         [] OTHER -> TRUE
\* levels of the results in c, d, a, b
LevelAfter(fd, rep, op, lc, la, lb) ==
  LET R(c, d, a, b) == [c |-> c, d |-> d, a |-> a, b |-> b] IN
  IF ~Red(rep) THEN R(0, 0, la, lb)
  ELSE CASE op \in {"add", "sub"} -> R(1, 0, la, lb)
         [] op = "neg" -> R(IF rep = "q" \/ fd = 448 THEN 1 ELSE 1, 0, la, lb)
         [] op = "ngz" -> R(1, 0, la, lb)
         [] op = "addsub" -> IF rep = "q" THEN R(1, 1, la, lb) ELSE R(0, 0, 1, 1)
         [] op = "addsublar" -> R(0, 0, 3, 3)
         [] op = "intmul" -> R(IF la + lb = 2 THEN 4 ELSE 2, 0, la, lb)
         [] op = "intsqr" -> R(IF lc = 1 THEN 4 ELSE 2, 0, la, lb)
         [] op = "compressfast" -> R(IF lc <= 1 THEN 0 ELSE 2, 0, la, lb)   \* one parallel carry
         [] op \in {"compress2", "new_compressfast2"} -> R(0, 0, 0, 0)
         [] op = "copy" -> R(la, 0, la, lb)
         [] op = "cmv" -> R(IF la > lb THEN la ELSE lb, 0, la, lb)
         [] op = "inter" -> R(IF la > lb THEN la ELSE lb, 0, la, lb)
         [] op = "deinter" -> R(la, la, la, lb)
         [] OTHER -> R(0, 0, la, lb)

\* --- results ---
\* Claims about a result lane: "mod" congruent to val; "int" equal to val;
\* "root" the square is the ratio num/den; "any" nothing is promised
CMod(v) == [k |-> "mod", val |-> v]
CInt(v) == [k |-> "int", val |-> v]
CRoot(num, den) == [k |-> "root", num |-> num, den |-> den]
CAny == [k |-> "any"]
Meets(claim, x, p) ==
  CASE claim.k = "mod" -> (x - claim.val) % p = 0
    [] claim.k = "int" -> x = claim.val
    [] claim.k = "root" -> (x * x * claim.den - claim.num) % p = 0
    [] claim.k = "any" -> TRUE
\* value v times an exact integer, as a claim for the representation: exact
\* for the double-length products, otherwise modulo p
Prod(rep, v) == IF rep \in {"f", "g", "w", "v"} THEN CInt(v) ELSE CMod(v)
\* lanes of the result register c; xc old contents of c, xa, xb operands,
\* bits the selection bits per lane, bs the bytes of unser
Sel(bits, l) == (bits \div 2^(l - 1)) % 2
ResultC(fd, rep, op, xc, xa, xb, bits, bs) ==
  LET p == PrimeOf(fd)
      n == LanesOf(Operands(rep, op).c)
      nb == BytesOf(fd)
      Each(f(_)) == Tup([l \in 1..n |-> f(l)])
      ForEach(f(_)) == Each(f)
  IN CASE op = "add" -> LET f(l) == CMod(xa[l] + xb[l]) IN Each(f)
       [] op = "sub" -> LET f(l) == CMod(xa[l] - xb[l]) IN Each(f)
       [] op = "mul" -> LET f(l) == CMod(xa[l] * xb[l]) IN Each(f)
       [] op = "sqr" -> LET f(l) == CMod(xc[l] * xc[l]) IN Each(f)
       [] op = "neg" -> LET f(l) == CMod(0 - xc[l]) IN Each(f)
       [] op = "mula24" -> LET f(l) == CMod(A24Of(fd) * xa[l]) IN Each(f)
       [] op = "inv" -> LET f(l) == CMod(FInvP(xa[l], p)) IN Each(f)
       [] op = "srt" ->
            LET f(l) == IF fd = 255
                        THEN IF xa[l] % p # 0 /\ FIsSq(xc[l] * xa[l], p) THEN CRoot(xc[l], xa[l]) ELSE CAny
                        ELSE IF xa[l] % p # 0 /\ FIsSq(xa[l], p) THEN CRoot(1, xa[l]) ELSE CAny
            IN Each(f)
       [] op = "cmv" -> LET f(l) == CMod(IF Sel(bits, l) = 1 THEN xb[l] ELSE xa[l]) IN Each(f)
       [] op = "copy" -> LET f(l) == CMod(xa[l]) IN Each(f)
       [] op = "zero" -> LET f(l) == CInt(0) IN Each(f)
       [] op = "prime" -> LET f(l) == CInt(p) IN Each(f)
       [] op = "unser" -> LET f(l) == CMod(LeInt(SubSeq(bs, nb * (l - 1) + 1, nb * l))) IN Each(f)
       [] op \in {"compress", "compressfast"} -> LET f(l) == CMod(xc[l]) IN Each(f)
       [] op \in {"intmul", "intmul2"} -> LET f(l) == Prod(rep, xa[l] * xb[l]) IN Each(f)
       [] op = "intsqr" -> IF rep = "f" THEN LET f(l) == CInt(xa[l] * xa[l]) IN Each(f)
                           ELSE LET f(l) == CMod(xc[l] * xc[l]) IN Each(f)
       [] op = "intsqr2" -> LET f(l) == CInt(xa[l] * xa[l]) IN Each(f)
       [] op \in {"reduce", "reduce2"} -> LET f(l) == CMod(xa[l]) IN Each(f)
       [] op = "ngz" -> IF rep = "t" THEN <<CMod(0 - xa[1]), CMod(xa[2])>>
                        ELSE <<CMod(xa[2]), CMod(xa[1]), CMod(0 - xa[3]), CMod(xa[4])>>
       [] op = "inter" -> <<CMod(xa[1]), CMod(xb[1])>>
       [] op = "deinter" -> <<CMod(xa[1])>>
       [] op = "addsub" -> LET f(l) == CMod(xa[l] + xb[l]) IN Each(f)
       [] OTHER -> <<>>
ResultD(fd, rep, op, xa, xb) ==
  CASE op = "deinter" -> <<CMod(xa[2])>>
    [] op = "addsub" -> Tup([l \in 1..4 |-> CMod(xa[l] - xb[l])])
    [] OTHER -> <<>>
\* operations that replace a and b in place
InPlace(rep, op) == op \in {"addsublar", "compress2", "new_compressfast2"} \/ (op = "addsub" /\ rep # "q")
ResultA(fd, rep, op, xa, xb) ==
  IF op \in {"addsub", "addsublar"} /\ InPlace(rep, op) THEN Tup([l \in 1..Len(xa) |-> CMod(xa[l] + xb[l])])
  ELSE Tup([l \in 1..Len(xa) |-> CMod(xa[l])])
ResultB(fd, rep, op, xa, xb) ==
  IF op \in {"addsub", "addsublar"} /\ InPlace(rep, op) THEN Tup([l \in 1..Len(xb) |-> CMod(xa[l] - xb[l])])
  ELSE Tup([l \in 1..Len(xb) |-> CMod(xb[l])])
AllMeet(claims, xs, p) == /\ Len(xs) = Len(claims)
                          /\ \A l \in 1..Len(claims) : Meets(claims[l], xs[l], p)
\* canonical encoding, comparison and sign
SerBytes(fd, xa) ==
  LET F(acc, l) == acc \o Enc(xa[l] % PrimeOf(fd), BytesOf(fd)) IN FoldN(F, <<>>, Len(xa))
SameLane(fd, xa, xb, l) == (xa[l] - xb[l]) % PrimeOf(fd) = 0
SignLane(fd, xa, l) == (xa[l] % PrimeOf(fd)) % 2
\* position (1-based) of a lane in the four words of a vector answer
VecWord(rep, l) == IF rep = "t" THEN 2 * l - 1 ELSE l
=============================================================================
