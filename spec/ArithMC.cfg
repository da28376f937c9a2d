SPECIFICATION Spec
CONSTANTS X = 110 XD = 110
INVARIANTS Tables SigmaExact Definitions
CHECK_DEADLOCK FALSE
