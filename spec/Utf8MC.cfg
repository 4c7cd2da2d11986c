SPECIFICATION Spec
CONSTANTS MaxLen = 3
 OneIn = 12
INVARIANTS Whole Sound Parts Cut
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
