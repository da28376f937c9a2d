SPECIFICATION Spec
CONSTANTS LO = 0 HI = 1 SIZES = {4}
INVARIANTS Exact DetRight Sylvester Ring
PROPERTY Terminates
CHECK_DEADLOCK FALSE
