SPECIFICATION Spec
CONSTANTS Size = 3
 Weights = {1, 2, 3}
INVARIANTS Minimum ForestInv Exchange
