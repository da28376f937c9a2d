SPECIFICATION Spec
CONSTANTS T = 3 K = 3
INVARIANTS Restored Exact
CHECK_DEADLOCK FALSE
