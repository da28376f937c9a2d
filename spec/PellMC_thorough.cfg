SPECIFICATION Spec
CONSTANTS DS = {2, 3, 5, 6, 7, 8, 10, 11, 12, 14, 15, 17, 18, 20, 23, 24, 26, 27, 30, 34, 35, 37, 48, 50, 63} NMAX = 40 BOUND = 3000
INVARIANTS Sound Representatives Everything SmallNorm
PROPERTY Terminates
CHECK_DEADLOCK FALSE
