SPECIFICATION Spec
CONSTANTS
 FD = 255
 Rep = "t"
 P = 53
 D = 3
 Zs = {1, 2, 31}
INVARIANTS NoOverflow Carries Sums
CHECK_DEADLOCK FALSE
