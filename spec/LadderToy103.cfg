SPECIFICATION Spec
CONSTANTS
 P = 103
 A = 10
 N = 7
INVARIANTS RfcMeaning LibMeaning RfcResult LibResult Agree
CHECK_DEADLOCK FALSE
