SPECIFICATION Spec
CONSTANTS
 FD = 448
 Rep = "q"
 NReg = 2
INVARIANTS NoOverflow Levels
CHECK_DEADLOCK FALSE
