SPECIFICATION Spec
CONSTANTS
 P = 23
 A = 18
 N = 6
INVARIANTS RfcMeaning LibMeaning RfcResult LibResult Agree
CHECK_DEADLOCK FALSE
