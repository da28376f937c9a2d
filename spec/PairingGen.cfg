SPECIFICATION Spec
CONSTANTS Depth = 5
 Keys = {1, 2, 3}
INVARIANTS Emit
