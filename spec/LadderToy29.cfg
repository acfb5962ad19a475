SPECIFICATION Spec
CONSTANTS
 P = 29
 A = 6
 N = 6
INVARIANTS RfcMeaning LibMeaning RfcResult LibResult Agree
CHECK_DEADLOCK FALSE
