SPECIFICATION Spec
CONSTANTS X = 400 XD = 300
INVARIANTS Tables SigmaExact Definitions
CHECK_DEADLOCK FALSE
