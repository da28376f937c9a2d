SPECIFICATION Spec
CONSTANT Verdict <- GenVerdict
