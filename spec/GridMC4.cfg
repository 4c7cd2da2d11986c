SPECIFICATION Spec
VIEW View
INVARIANTS OK Covered NoBetter ChosenOnDisplay Selectable
PROPERTY ChoiceKept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS Raised = 42
 MaxReadings = 4
 MaxDepth = 20
