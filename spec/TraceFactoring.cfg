SPECIFICATION Spec
CONSTANT Verdict <- FactoringVerdict
