SPECIFICATION Spec
CONSTANTS X = 64
INVARIANTS Invariant InvariantT Result
CHECK_DEADLOCK FALSE
