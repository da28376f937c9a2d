SPECIFICATION Spec
CONSTANTS T = 3 K = 5
INVARIANTS Restored Exact
CHECK_DEADLOCK FALSE
