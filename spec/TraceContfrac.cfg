SPECIFICATION Spec
CONSTANT Verdict <- ContFracVerdict
