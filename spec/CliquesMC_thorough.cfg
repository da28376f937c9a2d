SPECIFICATION Spec
CONSTANTS Size = 5
INVARIANTS Sound Complete Oracles
CHECK_DEADLOCK FALSE
