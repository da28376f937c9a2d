SPECIFICATION Spec
CONSTANT Verdict <- ECVerdict
