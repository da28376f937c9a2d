SPECIFICATION Spec
CONSTANTS C = 2 LEN = 3 KMAX = 4 GLEN = 3
INVARIANTS PowerRight PseudoRight DivRight GcdRight GcdGreatest KaratsubaRight ContentRight EvalRight
PROPERTY Terminates
CHECK_DEADLOCK FALSE
