SPECIFICATION Spec
CONSTANT Verdict <- PathsVerdict
