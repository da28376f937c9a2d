SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS RunsBound Emit
