SPECIFICATION Spec
CONSTANTS
 P = 37
 A = 6
 N = 9
INVARIANTS RfcMeaning LibMeaning RfcResult LibResult Agree
CHECK_DEADLOCK FALSE
