SPECIFICATION Spec
CONSTANTS Top = 300
INVARIANTS SmallOK WideOK
CHECK_DEADLOCK FALSE
