SPECIFICATION Spec
CONSTANTS
 Kind = "fold"
 W = 4
 N = 3
 F = 1
 M = 101
INVARIANTS Conserved Bounds NoCarryOut Sparse FoldSum WnafSum
CHECK_DEADLOCK FALSE
