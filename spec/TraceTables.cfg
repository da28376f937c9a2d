SPECIFICATION Spec
CONSTANT Verdict <- TablesVerdict
