SPECIFICATION Spec
CONSTANTS X = 11
INVARIANTS Passed ThreeRight TableRight LongestRight
PROPERTY Terminates
CHECK_DEADLOCK FALSE
