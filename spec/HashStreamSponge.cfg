SPECIFICATION Spec
CONSTANTS
 Kind = "sponge"
 B = 4
 LF = 0
 Max = 9
 Ctx = {1,2}
 OutMax = 13
INVARIANTS Whole Standard Output Apart
CHECK_DEADLOCK FALSE
