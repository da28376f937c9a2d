SPECIFICATION Spec
CONSTANTS DMAX = 47 PMAX = 7 QMAX = 5 N = 48
INVARIANTS FloorRight Divides PositiveTail Unimodular Tail0 Returns NormLaw PeriodLaw LeastUnit
PROPERTY Reciprocal
CHECK_DEADLOCK FALSE
