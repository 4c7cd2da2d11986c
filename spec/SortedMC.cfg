SPECIFICATION Spec
VIEW View
INVARIANTS Found Inside Kept Together
PROPERTY Ends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS MaxLines = 3
 MaxLine = 2
 MaxKey = 3
