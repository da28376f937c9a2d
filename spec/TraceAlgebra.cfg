SPECIFICATION Spec
CONSTANT Verdict <- AlgebraVerdict
