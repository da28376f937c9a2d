SPECIFICATION Spec
CONSTANT Verdict <- AlphaVerdict
