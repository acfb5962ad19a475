SPECIFICATION Spec
CONSTANTS
 Kind = "md"
 B = 6
 LF = 2
 Max = 19
 Ctx = {1}
 OutMax = 0
INVARIANTS Whole Standard Output Apart
CHECK_DEADLOCK FALSE
