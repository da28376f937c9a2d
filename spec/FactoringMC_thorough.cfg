SPECIFICATION Spec
CONSTANTS X = 6000 XR = 60
INVARIANTS Divisor ProperOrPrime WorkProduct WorkDistinct
PROPERTY Terminates
CHECK_DEADLOCK FALSE
