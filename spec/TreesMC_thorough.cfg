SPECIFICATION Spec
CONSTANTS Size = 4
 Weights = {1, 2}
INVARIANTS Minimum ForestInv Exchange
