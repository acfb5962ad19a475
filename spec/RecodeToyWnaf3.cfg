SPECIFICATION Spec
CONSTANTS
 Kind = "wnaf"
 W = 3
 N = 3
 F = 1
 M = 31
INVARIANTS Conserved Bounds NoCarryOut Sparse FoldSum WnafSum
CHECK_DEADLOCK FALSE
