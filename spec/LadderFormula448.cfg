SPECIFICATION LadderSpec
CONSTANTS
 FD = 448
 Rep = "t"
 P = 11
 D = 3
 Zs = {1}
INVARIANTS NoOverflow LadderCarries Refines
CHECK_DEADLOCK FALSE
