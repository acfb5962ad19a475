SPECIFICATION Spec
CONSTANTS
 P = 53
 A = 14
 L = 7
INVARIANTS One Two
CHECK_DEADLOCK FALSE
