SPECIFICATION Spec
CONSTANTS Size = 4
 Limits = {1, 2}
INVARIANTS Sound Complete Characterised
