SPECIFICATION Spec
CONSTANTS LO <- MinusOne HI = 1 SIZES = {1, 2, 3}
INVARIANTS Exact DetRight Sylvester Ring
PROPERTY Terminates
CHECK_DEADLOCK FALSE
