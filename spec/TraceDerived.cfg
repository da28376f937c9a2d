SPECIFICATION Spec
CONSTANT Verdict <- DVerdict
