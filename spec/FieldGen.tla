------------------------------- MODULE FieldGen ------------------------------
(* Generates command sequences for the field machine: random walks over the  *)
(* states of the contract on carry levels (TLC -simulate).  Every step that  *)
(* the contract allows may be taken with any registers, including registers  *)
(* that coincide; when the chosen operation is not admissible the operands   *)
(* are carried first.  Each command is printed and replayed on the library.  *)
EXTENDS FieldMachine, TLC, IOUtils
FD == IF IOEnv.FD = "255" THEN 255 ELSE 448
\* share of steps that load a register with a fresh value, in percent
SETS == IF IOEnv.SETS = "40" THEN 40 ELSE 25
NReg == 4
Arith == {"add", "sub", "mul", "neg", "sqr", "mula24", "intmul", "intsqr", "reduce", "intmul2", "intsqr2", "reduce2",
          "addsub", "addsublar", "ngz", "compress", "compressfast", "compress2", "new_compressfast2"}
Repr == {"cmp", "cmv", "sgn", "prime", "copy", "zero", "ser", "unser", "inter", "deinter"}
\* the operations of interest; the others keep the register file moving
Chosen(op) == CASE IOEnv.OPSET = "arith" -> op \in Arith
                [] IOEnv.OPSET = "repr" -> op \in Repr \cup {"add", "sub", "mul", "compress"}
                [] IOEnv.OPSET = "root" -> op \in {"inv", "srt", "mul", "add", "copy"}
                [] OTHER -> TRUE
Reps == {"f", "g", "w", "v", "r", "t", "q"}
VARIABLES lev, began
gvars == <<lev, began>>
Op4 == {"f", "r", "t", "q"}
Lev(rep, k) == IF rep = "" THEN 0 ELSE lev[rep][k]
Rnd(S) == RandomElement(S)
Emit(rep, op, c, d, a, b, bit) == PrintT(<<"GEN", rep, op, c, d, a, b, bit>>)
SetL(l, rep, k, v) == IF rep = "" THEN l ELSE [l EXCEPT ![rep][k] = v]
Load == \E rep \in {Rnd(Reps)} : \E k \in {Rnd(0..(NReg - 1))} :
          /\ Emit(rep, "set", k, 0, 0, 0, 0)
          /\ lev' = SetL(lev, rep, k, 0)
\* operands that coincide are not admissible for these
Distinct(rep, op, c, d, a, b) ==
  /\ (op = "addsub" /\ rep = "q") => c # d
  /\ op = "deinter" => c # d
  /\ InPlace(rep, op) => a # b
Apply(rep, op, c, d, a, b, bit) ==
  LET o == Operands(rep, op)
      la == Lev(o.a, a) 
      lb == Lev(o.b, b)
      lc == Lev(o.c, c)
      n == LevelAfter(FD, rep, op, lc, la, lb)
      l1 == SetL(SetL(lev, o.b, b, n.b), o.a, a, n.a)
      l2 == SetL(SetL(l1, o.d, d, n.d), o.c, c, n.c)
      Need == {x \in { <<o.c, c>>, <<o.a, a>>, <<o.b, b>> } : Red(x[1]) /\ Lev(x[1], x[2]) > 0}
  IN IF ~Distinct(rep, op, c, d, a, b) THEN lev' = lev
     ELSE IF LevelsOK(FD, rep, op, lc, la, lb)
          THEN Emit(rep, op, c, d, a, b, bit) /\ lev' = l2
     ELSE \E x \in {Rnd(Need)} :
          Emit(x[1], "compress", x[2], 0, 0, 0, 0) /\ lev' = SetL(lev, x[1], x[2], 0)
Step == \E rep \in {Rnd(Op4)} : \E op \in {Rnd({x \in OpsOf(FD, rep) : Chosen(x)})} :
        \E c \in {Rnd(0..(NReg-1))} : \E d \in {Rnd(0..(NReg-1))} :
        \E a \in {Rnd(0..(NReg-1))} : \E b \in {Rnd(0..(NReg-1))} :
        \E bit \in {Rnd(0..3)} : Apply(rep, op, c, d, a, b, IF rep = "t" THEN bit ELSE bit % 2)
GenInit == lev = [r \in Reps |-> [k \in 0..(NReg - 1) |-> 0]] /\ began = FALSE
GenNext == \/ ~began /\ PrintT(<<"GEN", "", "R", 0, 0, 0, 0, 0>>) /\ began' = TRUE /\ lev' = lev
           \/ began /\ began' = TRUE /\ (IF Rnd(1..100) <= SETS THEN Load ELSE Step)
GenSpec == GenInit /\ [][GenNext]_gvars
=============================================================================
