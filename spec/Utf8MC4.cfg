SPECIFICATION Spec
CONSTANTS MaxLen = 4
 OneIn = 60
INVARIANTS Whole Sound Parts Cut
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
