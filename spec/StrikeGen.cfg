SPECIFICATION Spec
CONSTANTS Max = 12
 Depth = 2
 Impls = {"bitsieve", "bitsieve_array"}
INVARIANTS Telescopes Emit
