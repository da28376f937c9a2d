SPECIFICATION Spec
CONSTANTS Top = 60
INVARIANTS SmallOK WideOK
CHECK_DEADLOCK FALSE
