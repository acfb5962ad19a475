SPECIFICATION Spec
INVARIANTS Meaning Verdict Show
CHECK_DEADLOCK FALSE
