SPECIFICATION Spec
CONSTANTS
 P = 43
 A = 1
 D = 2
 Cof = 4
 L = 11
 GX = 2
 GY = 38
INVARIANTS Law Mul Codes Sign Verify
CHECK_DEADLOCK FALSE
