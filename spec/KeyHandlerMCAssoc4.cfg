SPECIFICATION Spec
VIEW View
INVARIANT OK
PROPERTIES Delivered NeverLost NothingLeft RefusedSame UnconsumedSame ConsumedWhileComposing TextFixed ChosenShows AddedMark AssocKeeps
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS Raised <- RaisedUnits
  Names <- [MandarinTables]SmallNames
  Valid <- [Mandarin]SmallValid
 LearnAbove <- NoLearning
 Capacity <- CapacityV
 MaxReadings = 4
 Modes <- McOnly
 Assocs <- BothAssoc
 Full = FALSE
 Ops <- OpsAssoc
