SPECIFICATION Spec
CONSTANTS MaxLen = 6 MaxVal = 4 MaxN = 5
INVARIANTS InOrder Complete NoGap
CHECK_DEADLOCK FALSE
