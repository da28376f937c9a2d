SPECIFICATION Spec
CONSTANTS Max = 20
 Depth = 2
 Impls = {"bitsieve", "bitsieve_array"}
INVARIANTS Telescopes Emit
