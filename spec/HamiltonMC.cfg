SPECIFICATION Spec
CONSTANTS Size = 4
 Long = 4
INVARIANTS Simple Complete Prunable Counted Agreed Listing Walked
