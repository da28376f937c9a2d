SPECIFICATION Spec
CONSTANTS N = 5 M = 4
INVARIANT Agree
