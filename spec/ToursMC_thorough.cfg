SPECIFICATION Spec
CONSTANTS N = 5 W = 2
INVARIANTS StillTour GainIsExact Terminates OptIsMin
CHECK_DEADLOCK FALSE
