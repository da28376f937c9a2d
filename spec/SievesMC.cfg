SPECIFICATION Spec
CONSTANT X = 150
INVARIANTS OnlyComposites Progressing Result Linear
PROPERTY Terminates
CHECK_DEADLOCK FALSE
