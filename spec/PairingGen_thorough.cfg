SPECIFICATION Spec
CONSTANTS Depth = 6
 Keys = {1, 2, 3}
INVARIANTS Emit
