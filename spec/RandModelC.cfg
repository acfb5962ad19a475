SPECIFICATION Spec
CONSTANTS
 Size = 9
 Hard = TRUE
INVARIANTS Full Room Prefix OneFd Justified
PROPERTIES Ends Completes
CHECK_DEADLOCK FALSE
