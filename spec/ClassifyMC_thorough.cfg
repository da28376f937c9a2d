SPECIFICATION Spec
CONSTANTS X = 20000
INVARIANTS PowerOf Maximal ByFactorization
PROPERTY Terminates
CHECK_DEADLOCK FALSE
