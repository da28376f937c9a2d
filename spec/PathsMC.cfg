SPECIFICATION Spec
CONSTANTS Size = 3
 Weights = {0, 1, 3}
INVARIANTS Above SettledFinal Quiescent AllSettled
