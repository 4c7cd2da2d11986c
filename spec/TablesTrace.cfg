SPECIFICATION Spec
VIEW View
INVARIANT ModelOK
CHECK_DEADLOCK FALSE
