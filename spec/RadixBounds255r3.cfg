SPECIFICATION Spec
CONSTANTS
 FD = 255
 Rep = "r"
 NReg = 3
INVARIANTS NoOverflow Levels
CHECK_DEADLOCK FALSE
