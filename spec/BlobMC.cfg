SPECIFICATION Spec
VIEW View
INVARIANTS Agrees Clean
PROPERTY Stays
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 5
 OneIn = 7
