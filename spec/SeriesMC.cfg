SPECIFICATION Spec
CONSTANTS C = 2 N = 4 KMAX = 4 ETA = 60
INVARIANTS InvertRight PowerRight EtaRight TruncRight
PROPERTY Terminates
CHECK_DEADLOCK FALSE
