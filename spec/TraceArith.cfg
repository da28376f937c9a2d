SPECIFICATION Spec
CONSTANT Verdict <- ArithVerdict
