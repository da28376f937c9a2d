SPECIFICATION Spec
CONSTANTS Size = 4
 Weights = {0, 1, 3}
INVARIANTS Sound Optimum Exact
