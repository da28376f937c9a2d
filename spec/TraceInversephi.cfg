SPECIFICATION Spec
CONSTANT Verdict <- InversephiVerdict
