SPECIFICATION Spec
VIEW View
INVARIANTS OK Highlighted
PROPERTIES ListTakesKeys NotOursIgnored Browsing LeavingSilent BackWhere Interrupted SettingsSilent NotTwice
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS Raised <- RaisedUnits
  Names <- [MandarinTables]SmallNames
  Valid <- [Mandarin]SmallValid
 LearnAbove <- NoLearning
 Capacity <- CapacityV
 MaxReadings = 1
 Modes <- BothModes
 Ops <- OpsPage
 Cfgs <- CfgsPage
 OneIn = 1
