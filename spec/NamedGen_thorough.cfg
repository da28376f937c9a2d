SPECIFICATION Spec
CONSTANTS Size = 5
 Depth = 4
INVARIANTS OneNamePerBlock Emit
