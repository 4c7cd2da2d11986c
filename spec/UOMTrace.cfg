SPECIFICATION Spec
VIEW View
INVARIANT ModelOK
CHECK_DEADLOCK FALSE
CONSTANTS Raised <- RaisedUnits
