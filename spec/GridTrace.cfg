SPECIFICATION Spec
VIEW View
INVARIANT ModelOK
CHECK_DEADLOCK FALSE
CONSTANT Raised = 688128
