SPECIFICATION Spec
CONSTANT Verdict <- PrimeCountVerdict
