SPECIFICATION Spec
CONSTANTS MaxLen = 5 MaxVal = 3 MaxN = 4
INVARIANTS InOrder Complete NoGap
CHECK_DEADLOCK FALSE
