SPECIFICATION Spec
CONSTANT Verdict <- PellVerdict
