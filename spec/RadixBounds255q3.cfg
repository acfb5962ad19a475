SPECIFICATION Spec
CONSTANTS
 FD = 255
 Rep = "q"
 NReg = 3
INVARIANTS NoOverflow Levels
CHECK_DEADLOCK FALSE
