SPECIFICATION Spec
CONSTANT Verdict <- DivisorsVerdict
