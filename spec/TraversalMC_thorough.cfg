SPECIFICATION Spec
CONSTANTS Size = 5
 Limits = {1, 2}
INVARIANTS Sound Complete Characterised
