SPECIFICATION Spec
CONSTANTS Size = 4
 Weights = {0, 1, 3}
INVARIANTS Above SettledFinal Quiescent AllSettled
