SPECIFICATION Spec
CONSTANTS
 FD = 255
 Rep = "t"
 NReg = 2
INVARIANTS NoOverflow Levels
CHECK_DEADLOCK FALSE
