SPECIFICATION Spec
CONSTANTS
 P = 101
 A = 29
 L = 11
INVARIANTS One Two
CHECK_DEADLOCK FALSE
