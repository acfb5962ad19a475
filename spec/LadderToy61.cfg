SPECIFICATION Spec
CONSTANTS
 P = 61
 A = 6
 N = 7
INVARIANTS RfcMeaning LibMeaning RfcResult LibResult Agree
CHECK_DEADLOCK FALSE
