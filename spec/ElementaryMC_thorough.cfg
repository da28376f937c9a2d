SPECIFICATION Spec
CONSTANTS K = 40
INVARIANTS Invariant PowerRight
PROPERTY Terminates
CHECK_DEADLOCK FALSE
