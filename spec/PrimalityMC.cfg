SPECIFICATION Spec
CONSTANT K = 61
INVARIANT Invariant
PROPERTY Terminates
CHECK_DEADLOCK FALSE
