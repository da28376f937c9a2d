SPECIFICATION Spec
CONSTANT Verdict <- SievesVerdict
