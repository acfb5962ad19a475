SPECIFICATION Spec
CONSTANTS
 FD = 255
 Rep = "q"
 NReg = 2
INVARIANTS NoOverflow Levels
CHECK_DEADLOCK FALSE
