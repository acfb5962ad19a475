SPECIFICATION Spec
CONSTANTS
 Kind = "fold"
 W = 2
 N = 6
 F = 2
 M = 61
INVARIANTS Conserved Bounds NoCarryOut Sparse FoldSum WnafSum
CHECK_DEADLOCK FALSE
