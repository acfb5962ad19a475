SPECIFICATION Spec
CONSTANTS
 Kind = "wnaf"
 W = 4
 N = 2
 F = 1
 M = 53
INVARIANTS Conserved Bounds NoCarryOut Sparse FoldSum WnafSum
CHECK_DEADLOCK FALSE
