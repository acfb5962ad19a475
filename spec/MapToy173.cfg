SPECIFICATION Spec
CONSTANTS
 P = 173
 A = 82
 L = 23
INVARIANTS One Two
CHECK_DEADLOCK FALSE
