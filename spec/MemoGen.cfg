SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS RunsBound Emit
