SPECIFICATION Spec
CONSTANTS Depth = 5
 Vals = {1, 2}
INVARIANTS SortedInv Emit
