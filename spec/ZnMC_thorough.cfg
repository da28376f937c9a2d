SPECIFICATION Spec
CONSTANTS PMAX = 113 QMAX = 700 LMAX = 29 OMAX = 64
INVARIANTS TonelliRight TonelliDigits LiftRight SqrtCounts LogRight LogTheory OrderRight GeneratorTheory QuadCounts
PROPERTY Terminates
CHECK_DEADLOCK FALSE
