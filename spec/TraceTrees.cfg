SPECIFICATION Spec
CONSTANT Verdict <- TreesVerdict
