SPECIFICATION Spec
CONSTANT Verdict <- ClassifyVerdict
