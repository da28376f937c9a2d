SPECIFICATION Spec
CONSTANT Verdict <- ZnArithVerdict
