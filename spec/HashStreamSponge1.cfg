SPECIFICATION Spec
CONSTANTS
 Kind = "sponge"
 B = 5
 LF = 0
 Max = 17
 Ctx = {1}
 OutMax = 23
INVARIANTS Whole Standard Output Apart
CHECK_DEADLOCK FALSE
