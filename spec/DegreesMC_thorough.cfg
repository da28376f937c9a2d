SPECIFICATION Spec
CONSTANTS MaxLen = 5
 Hi = 5
INVARIANTS Right Preserved Inequalities
CHECK_DEADLOCK FALSE
