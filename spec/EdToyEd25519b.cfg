SPECIFICATION Spec
CONSTANTS
 P = 61
 A = 60
 D = 2
 Cof = 8
 L = 7
 GX = 14
 GY = 27
INVARIANTS Law Mul Codes Sign Verify
CHECK_DEADLOCK FALSE
