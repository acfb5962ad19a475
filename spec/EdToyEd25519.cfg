SPECIFICATION Spec
CONSTANTS
 P = 53
 A = 52
 D = 3
 Cof = 8
 L = 7
 GX = 4
 GY = 43
INVARIANTS Law Mul Codes Sign Verify
CHECK_DEADLOCK FALSE
