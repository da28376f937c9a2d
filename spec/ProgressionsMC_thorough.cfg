SPECIFICATION Spec
CONSTANTS X = 14
INVARIANTS Passed ThreeRight TableRight LongestRight
PROPERTY Terminates
CHECK_DEADLOCK FALSE
