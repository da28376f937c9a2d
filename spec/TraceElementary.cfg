SPECIFICATION Spec
CONSTANT Verdict <- ElementaryVerdict
