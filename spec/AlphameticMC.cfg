SPECIFICATION Spec
CONSTANTS Abc = 2 L1 = 2 L2 = 2 L3 = 2
INVARIANT Same
