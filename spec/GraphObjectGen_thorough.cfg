SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Simple ComplementTwice RemoveIsInduced Handshake Emit
