SPECIFICATION Spec
CONSTANTS
 P = 101
 A = 100
 D = 12
 Cof = 8
 L = 11
 GX = 2
 GY = 54
INVARIANTS Law Mul Codes Sign Verify
CHECK_DEADLOCK FALSE
