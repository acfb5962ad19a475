SPECIFICATION Spec
CONSTANTS
 Size = 3
 Hard = FALSE
INVARIANTS Full Room Prefix OneFd Justified
PROPERTIES Ends Completes
CHECK_DEADLOCK FALSE
