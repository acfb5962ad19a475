SPECIFICATION Spec
CONSTANTS
 FD = 448
 Rep = "r"
 NReg = 2
INVARIANTS NoOverflow Levels
CHECK_DEADLOCK FALSE
