SPECIFICATION Spec
CONSTANTS
 FD = 448
 Rep = "t"
 NReg = 2
INVARIANTS NoOverflow Levels
CHECK_DEADLOCK FALSE
