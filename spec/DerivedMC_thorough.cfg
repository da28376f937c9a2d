SPECIFICATION Spec
CONSTANTS Size = 5
 Odd = {2, 3, 4}
INVARIANTS Sound Exact Degenerate Kirchhoff Complement DegreeSum
