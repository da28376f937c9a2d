SPECIFICATION Spec
CONSTANT X = 600
INVARIANTS OnlyComposites Progressing Result Linear
PROPERTY Terminates
CHECK_DEADLOCK FALSE
