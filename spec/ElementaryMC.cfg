SPECIFICATION Spec
CONSTANTS K = 16
INVARIANTS Invariant PowerRight
PROPERTY Terminates
CHECK_DEADLOCK FALSE
