SPECIFICATION Spec
CONSTANTS
 Kind = "wnaf"
 W = 7
 N = 2
 F = 1
 M = 127
INVARIANTS Conserved Bounds NoCarryOut Sparse FoldSum WnafSum
CHECK_DEADLOCK FALSE
