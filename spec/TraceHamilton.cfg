SPECIFICATION Spec
CONSTANT Verdict <- HamiltonVerdict
