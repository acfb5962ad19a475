---------------------------- MODULE LadderFormula ---------------------------
(* One step of the vector ladders as the straight line of its operations     *)
(* (PointFormulas), in two readings: on digit bounds, from carried registers *)
(* nothing overflows or borrows and the registers are carried again, so any  *)
(* number of steps can follow each other; on values, for all registers over  *)
(* a small field, it is the step of LadderToy, whose meaning is multiples of *)
(* points.                                                                   *)
EXTENDS PointFormulas
Moves == {"X2", "Z2", "X3", "Z3"}
Elements == 0..(P - 1)
LadderInit == /\ name \in {"ladder0", "ladder1"} /\ pc = 1 /\ ok = TRUE
              /\ \/ pt = <<>> /\ reg = Bounds
                 \/ pt \in Elements \X Elements \X Elements \X Elements /\ reg = <<>>
LadderSpec == LadderInit /\ [][Next]_vars
\* the step of LadderToy
Step(x2, z2, x3, z3, u, swap) ==
  LET a == x2 + z2  b == x2 - z2  c == x3 + z3  d == x3 - z3
      s == IF swap = 1 THEN c ELSE a   t == IF swap = 1 THEN d ELSE b
      aa == (s * s) % P   bb == (t * t) % P   e == aa - bb
  IN <<(aa * bb) % P, (e * (bb + A24Of(FD) * e)) % P,
       ((d * a + c * b) * (d * a + c * b)) % P, (u * ((d * a - c * b) * (d * a - c * b))) % P>>
------------------------------------------------------------------------------
LadderCarries == pt = <<>> /\ pc = Len(Prog[name]) + 1 => \A r \in Moves : LE(reg[r], Full) /\ LE(Full, Cap)
Refines == pt # <<>> =>
  \A u \in Elements :
    LET From == [r \in Regs |-> CASE r = "X2" -> pt[1] [] r = "Z2" -> pt[2] [] r = "X3" -> pt[3] [] r = "Z3" -> pt[4] [] r = "X1" -> u [] OTHER -> 0]
        One(m, k) == LET i == Prog[name][k] IN [m EXCEPT ![i[2]] = Value(i[1], m[i[3]], m[i[4]])]
        r == FoldN(One, From, Len(Prog[name]))
    IN <<r["X2"], r["Z2"], r["X3"], r["Z3"]>> = Step(pt[1], pt[2], pt[3], pt[4], u, IF name = "ladder1" THEN 1 ELSE 0)
=============================================================================
