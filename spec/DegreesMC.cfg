SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Hi = 4
INVARIANTS Right Preserved Inequalities
CHECK_DEADLOCK FALSE
