SPECIFICATION Spec
CONSTANTS
 P = 19
 A = 1
 D = 8
 Cof = 4
 L = 7
 GX = 2
 GY = 9
INVARIANTS Law Mul Codes Sign Verify
CHECK_DEADLOCK FALSE
