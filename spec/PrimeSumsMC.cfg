SPECIFICATION Spec
CONSTANT X = 90
INVARIANTS Invariant Readable Result
PROPERTY Terminates
CHECK_DEADLOCK FALSE
