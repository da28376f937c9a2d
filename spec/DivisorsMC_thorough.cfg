SPECIFICATION Spec
CONSTANTS X = 110 XE = 1500
INVARIANTS ExpandDone ExpandFresh RangeHits RangeDone
PROPERTY Terminates
CHECK_DEADLOCK FALSE
