SPECIFICATION Spec
CONSTANT Verdict <- TourVerdict
