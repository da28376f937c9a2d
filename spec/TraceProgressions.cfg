SPECIFICATION Spec
CONSTANT Verdict <- ProgressionsVerdict
