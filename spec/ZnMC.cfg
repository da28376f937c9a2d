SPECIFICATION Spec
CONSTANTS PMAX = 41 QMAX = 90 LMAX = 13 OMAX = 27
INVARIANTS TonelliRight TonelliDigits LiftRight SqrtCounts LogRight LogTheory OrderRight GeneratorTheory QuadCounts
PROPERTY Terminates
CHECK_DEADLOCK FALSE
