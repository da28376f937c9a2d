SPECIFICATION Spec
CONSTANT Verdict <- CountVerdict
