SPECIFICATION Spec
CONSTANT Verdict <- OptimiseVerdict
