SPECIFICATION Spec
CONSTANTS N = 4 W = 3
INVARIANTS StillTour GainIsExact Terminates OptIsMin
CHECK_DEADLOCK FALSE
