SPECIFICATION Spec
CONSTANTS X = 900 XR = 27
INVARIANTS Divisor ProperOrPrime WorkProduct WorkDistinct
PROPERTY Terminates
CHECK_DEADLOCK FALSE
