SPECIFICATION Spec
CONSTANTS X = 40 XE = 200
INVARIANTS ExpandDone ExpandFresh RangeHits RangeDone
PROPERTY Terminates
CHECK_DEADLOCK FALSE
