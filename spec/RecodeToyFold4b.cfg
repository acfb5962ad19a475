SPECIFICATION Spec
CONSTANTS
 Kind = "fold"
 W = 3
 N = 4
 F = 4
 M = 97
INVARIANTS Conserved Bounds NoCarryOut Sparse FoldSum WnafSum
CHECK_DEADLOCK FALSE
