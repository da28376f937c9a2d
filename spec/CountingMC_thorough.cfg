SPECIFICATION Spec
CONSTANTS N = 6 M = 5
INVARIANT Agree
