SPECIFICATION Spec
CONSTANT Verdict <- CliquesVerdict
