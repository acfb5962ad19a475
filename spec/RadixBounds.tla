----------------------------- MODULE RadixBounds ----------------------------
(* No reduced-radix operation can overflow, whatever the operands: the       *)
(* register machine of FieldMachine run on digit bounds instead of digits.   *)
(* A register holds a level and, for every digit, the largest value it can   *)
(* have; every operation the contract on levels admits is taken in every     *)
(* order, starting from carried registers.  All transformers are monotone,   *)
(* so the bounds cover every element.  Invariants: factors of a 32 x 32 bit  *)
(* product fit 32 bits, sums of products fit 64 bits with room for the       *)
(* carries, subtractions never borrow, and every result the contract calls   *)
(* carried has carried digits.  The traces check, for every operation of the *)
(* implementation, that results of level 0 are carried (Carried in           *)
(* FieldMachine): together no sequence of admissible operations overflows.   *)
EXTENDS DigitBounds
CONSTANT NReg

VARIABLES reg,   \* register -> [lev, bd]
          last   \* what the last operation needed: <<name, truth>>
vars == <<reg, last>>
Zero0 == [lev |-> 0, bd |-> Cap]
Init == reg = [r \in 1..NReg |-> Zero0] /\ last = <<"", TRUE>>
Put(r, lev, bd) == [lev |-> lev, bd |-> bd]
Lev(c, a, b, op) == LevelAfter(FD, Rep, op, reg[c].lev, reg[a].lev, reg[b].lev)
Adm(op, c, a, b) == op \in OpsOf(FD, Rep) /\ LevelsOK(FD, Rep, op, reg[c].lev, reg[a].lev, reg[b].lev)
\* a level-0 result is carried by contract; otherwise its bound is computed
Res(lev, bd) == [lev |-> lev, bd |-> IF lev = 0 THEN Cap ELSE bd]
Do(op, c, a, b) ==
  /\ Adm(op, c, a, b)
  /\ LET A == reg[a].bd  B == reg[b].bd  C == reg[c].bd
         L == Lev(c, a, b, op)
     IN CASE op = "add" -> /\ reg' = [reg EXCEPT ![c] = Res(L.c, Plus(A, B))] /\ last' = <<op, TRUE>>
          [] op = "sub" -> /\ reg' = [reg EXCEPT ![c] = Res(L.c, Plus(A, TwoP))] /\ last' = <<op, LE(B, TwoP)>>
          [] op = "neg" -> /\ reg' = [reg EXCEPT ![c] = Res(L.c, TwoP)] /\ last' = <<op, LE(C, TwoP)>>
          [] op = "ngz" -> /\ reg' = [reg EXCEPT ![c] = Res(L.c, Plus(A, TwoP))] /\ last' = <<op, LE(A, TwoP)>>
          [] op = "addsub" ->
               /\ a # b /\ last' = <<op, LE(B, TwoP)>>
               /\ IF Rep = "q"
                  THEN \E d \in 1..NReg \ {c} : reg' = [reg EXCEPT ![c] = Res(L.c, Plus(A, B)), ![d] = Res(L.d, Plus(A, TwoP))]
                  ELSE reg' = [reg EXCEPT ![a] = Res(L.a, Plus(A, B)), ![b] = Res(L.b, Plus(A, TwoP))]
          [] op = "addsublar" ->
               /\ a # b /\ last' = <<op, LE(B, Large) /\ Fits(Plus(A, B)) /\ Fits(Plus(A, Large))>>
               /\ reg' = [reg EXCEPT ![a] = Res(L.a, Plus(A, B)), ![b] = Res(L.b, Plus(A, Large))]
          [] op \in {"mul", "intmul"} ->
               LET m == Product(A, B) IN
               /\ reg' = [reg EXCEPT ![c] = Res(L.c, m)] /\ last' = <<op, FactorsOK(A, B) /\ Fits(m)>>
          [] op \in {"sqr", "intsqr"} ->
               LET m == Product(C, C) IN
               /\ reg' = [reg EXCEPT ![c] = Res(L.c, m)] /\ last' = <<op, FactorsOK(C, C) /\ Fits(m)>>
          [] op = "compress" -> reg' = [reg EXCEPT ![c] = Zero0] /\ last' = <<op, Fits(C)>>
          [] op = "compressfast" ->
               /\ reg' = [reg EXCEPT ![c] = Res(L.c, Most(C, Fast(C)))]
               /\ last' = <<op, Fits(C) /\ (L.c = 0 => LE(Fast(C), Cap))>>
          [] op = "compress2" -> reg' = [reg EXCEPT ![a] = Zero0, ![b] = Zero0] /\ last' = <<op, Fits(A) /\ Fits(B)>>
          [] op = "new_compressfast2" ->
               /\ reg' = [reg EXCEPT ![a] = Zero0, ![b] = Zero0]
               /\ last' = <<op, Fits(A) /\ Fits(B) /\ LE(Fast(A), Cap) /\ LE(Fast(B), Cap)>>
          [] op = "copy" -> reg' = [reg EXCEPT ![c] = reg[a]] /\ last' = <<op, TRUE>>
\* the ladders: a24 E + AA with E = AA - BB, then a parallel carry
A24Step(c, a, b) ==
  /\ reg[a].lev = 0 /\ reg[b].lev = 0 /\ Rep = "t"
  /\ LET e == Plus(reg[a].bd, TwoP)
         x == Tup([i \in 1..ND |-> (A24Of(FD) - 1) * e[i] + reg[a].bd[i]])
     IN /\ last' = <<"a24", (\A i \in 1..ND : e[i] < 2^32) /\ Fits(x) /\ LE(Fast(x), Cap)>>
        /\ reg' = [reg EXCEPT ![c] = Zero0]
BoundOps == {"add", "sub", "neg", "ngz", "addsub", "addsublar", "mul", "intmul", "sqr", "intsqr",
             "compress", "compressfast", "compress2", "new_compressfast2", "copy"}
Next == \/ \E op \in BoundOps, c, a, b \in 1..NReg : Do(op, c, a, b)
        \/ \E c, a, b \in 1..NReg : A24Step(c, a, b)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
NoOverflow == last[2]
\* (the levels have bounds of their own: the state space is finite)
Levels == \A r \in 1..NReg : reg[r].lev \in 0..4
=============================================================================
