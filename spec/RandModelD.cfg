SPECIFICATION Spec
CONSTANTS
 Size = 0
 Hard = TRUE
INVARIANTS Full Room Prefix OneFd Justified
PROPERTIES Ends Completes
CHECK_DEADLOCK FALSE
