SPECIFICATION Spec
CONSTANT Verdict <- MatricesVerdict
