SPECIFICATION Spec
CONSTANTS
 Kind = "md"
 B = 4
 LF = 2
 Max = 10
 Ctx = {1,2}
 OutMax = 0
INVARIANTS Whole Standard Output Apart
CHECK_DEADLOCK FALSE
