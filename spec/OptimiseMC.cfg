SPECIFICATION Spec
CONSTANTS NMAX = 40 BMAX = 130 M = 16
INVARIANTS MeetRight MeetSafe MostRight BernoulliRight
PROPERTY Terminates
CHECK_DEADLOCK FALSE
