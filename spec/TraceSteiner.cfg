SPECIFICATION Spec
CONSTANT Verdict <- SteinerVerdict
