SPECIFICATION Spec
CONSTANTS Size = 5
 Long = 4
INVARIANTS Simple Complete Prunable Counted Agreed Listing Walked
