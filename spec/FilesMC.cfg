SPECIFICATION Spec
VIEW View
INVARIANTS Real Noticed
PROPERTIES Moved Isolated
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS MaxOps = 4
 OneIn = 40
