SPECIFICATION Spec
CONSTANTS MaxItems = 4 MaxV = 3 MaxW = 3 MaxCap = 7
INVARIANTS NothingLost Optimal
CHECK_DEADLOCK FALSE
