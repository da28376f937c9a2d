SPECIFICATION Spec
CONSTANTS X = 1100
INVARIANTS PowerOf Maximal ByFactorization
PROPERTY Terminates
CHECK_DEADLOCK FALSE
