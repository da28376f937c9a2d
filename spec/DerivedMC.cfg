SPECIFICATION Spec
CONSTANTS Size = 4
 Odd = {2, 3}
INVARIANTS Sound Exact Degenerate Kirchhoff Complement DegreeSum
