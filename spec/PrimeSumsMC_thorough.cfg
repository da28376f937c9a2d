SPECIFICATION Spec
CONSTANT X = 400
INVARIANTS Invariant Readable Result
PROPERTY Terminates
CHECK_DEADLOCK FALSE
