SPECIFICATION Spec
CONSTANT Verdict <- PackVerdict
