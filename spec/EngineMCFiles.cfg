SPECIFICATION Spec
VIEW View
INVARIANTS OK Highlighted InEffect OwnFirst NoTextTwice
PROPERTIES ListTakesKeys NotOursIgnored Browsing LeavingSilent BackWhere Interrupted SettingsSilent NotTwice EditsSilent AddedWritten
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS Raised <- RaisedUnits
  Names <- [MandarinTables]SmallNames
  Valid <- [Mandarin]SmallValid
 LearnAbove <- NoLearning
 Capacity <- CapacityV
 MaxReadings = 2
 Modes <- McOnly
 Ops <- OpsFiles
 Cfgs <- CfgsFiles
 OneIn = 1
