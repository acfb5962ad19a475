SPECIFICATION Spec
CONSTANTS
 FD = 448
 Rep = "q"
 NReg = 3
INVARIANTS NoOverflow Levels
CHECK_DEADLOCK FALSE
