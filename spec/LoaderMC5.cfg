SPECIFICATION Spec
VIEW View
INVARIANTS Kept OfferedNow Followed Populates
PROPERTIES Quiet Appends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS MaxOps = 5
 OneIn = 300
