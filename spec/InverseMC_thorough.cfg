SPECIFICATION Spec
CONSTANTS X = 240
INVARIANTS Invariant InvariantT Result
CHECK_DEADLOCK FALSE
