SPECIFICATION Spec
CONSTANTS Size = 4
 Depth = 3
INVARIANTS OneNamePerBlock Emit
