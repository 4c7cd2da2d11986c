SPECIFICATION Spec
VIEW View
INVARIANT OK Remembered Suggested Fresh
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS Raised <- RaisedUnits
 MaxOps = 3
 Cap = 2
 Keys <- K3
 Gaps <- GapsV
