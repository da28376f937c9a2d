SPECIFICATION Spec
CONSTANTS NMAX = 110 BMAX = 1300 M = 40
INVARIANTS MeetRight MeetSafe MostRight BernoulliRight
PROPERTY Terminates
CHECK_DEADLOCK FALSE
