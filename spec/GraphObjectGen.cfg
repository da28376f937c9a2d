SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Simple ComplementTwice RemoveIsInduced Handshake Emit
