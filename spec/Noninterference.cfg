SPECIFICATION Spec
INVARIANT SameLength
CHECK_DEADLOCK FALSE
