SPECIFICATION Spec
VIEW View
INVARIANTS Kept OfferedNow Followed Populates
PROPERTIES Quiet Appends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS MaxOps = 4
 OneIn = 8
