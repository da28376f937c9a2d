SPECIFICATION Spec
CONSTANTS Size = 4
INVARIANTS Sound Complete Oracles
CHECK_DEADLOCK FALSE
