SPECIFICATION Spec
CONSTANTS Depth = 4
 Vals = {1, 2}
INVARIANTS SortedInv Emit
