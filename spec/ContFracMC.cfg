SPECIFICATION Spec
CONSTANTS DMAX = 12 PMAX = 4 QMAX = 3 N = 26
INVARIANTS FloorRight Divides PositiveTail Unimodular Tail0 Returns NormLaw PeriodLaw LeastUnit
PROPERTY Reciprocal
CHECK_DEADLOCK FALSE
