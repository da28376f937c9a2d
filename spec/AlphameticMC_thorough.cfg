SPECIFICATION Spec
CONSTANTS Abc = 3 L1 = 2 L2 = 2 L3 = 3
INVARIANT Same
