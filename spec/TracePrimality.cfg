SPECIFICATION Spec
CONSTANT Verdict <- PrimalityVerdict
