SPECIFICATION Spec
CONSTANT Verdict <- DegreesVerdict
