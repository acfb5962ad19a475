SPECIFICATION Spec
CONSTANTS
 FD = 448
 Rep = "q"
 P = 31
 D = 3
 Zs = {1, 5}
INVARIANTS NoOverflow Carries Sums
CHECK_DEADLOCK FALSE
