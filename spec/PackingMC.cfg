SPECIFICATION Spec
CONSTANTS MaxItems = 3 MaxV = 2 MaxW = 3 MaxCap = 5
INVARIANTS NothingLost Optimal
CHECK_DEADLOCK FALSE
