SPECIFICATION Spec
CONSTANTS Size = 5
 Depth = 3
INVARIANTS IsPartition Emit
