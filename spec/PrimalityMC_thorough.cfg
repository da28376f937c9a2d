SPECIFICATION Spec
CONSTANT K = 161
INVARIANT Invariant
PROPERTY Terminates
CHECK_DEADLOCK FALSE
