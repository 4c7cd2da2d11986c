SPECIFICATION Spec
VIEW View
INVARIANTS True_ Complete Best Narrower Inverse
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS MaxEntries = 2
 MaxLen = 2
