SPECIFICATION Spec
CONSTANTS
 P = 61
 A = 20
 L = 7
INVARIANTS One Two
CHECK_DEADLOCK FALSE
