SPECIFICATION Spec
CONSTANTS DS = {2, 3, 5, 6, 7, 8, 10, 11, 12, 15, 20, 24} NMAX = 14 BOUND = 600
INVARIANTS Sound Representatives Everything SmallNorm
PROPERTY Terminates
CHECK_DEADLOCK FALSE
