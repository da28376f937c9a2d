SPECIFICATION Spec
CONSTANTS C = 2 N = 5 KMAX = 4 ETA = 120
INVARIANTS InvertRight PowerRight EtaRight TruncRight
PROPERTY Terminates
CHECK_DEADLOCK FALSE
