SPECIFICATION Spec
VIEW View
INVARIANTS OK Highlighted
PROPERTIES ListTakesKeys NotOursIgnored Browsing LeavingSilent BackWhere Interrupted SettingsSilent NotTwice
CONSTRAINT Deep15
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS Raised <- RaisedUnits
  Names <- [MandarinTables]SmallNames
  Valid <- [Mandarin]SmallValid
 LearnAbove <- NoLearning
 Capacity <- CapacityV
 MaxReadings = 2
 Modes <- BothModes
 Ops <- OpsBreak2
 Cfgs <- CfgsBreak
 OneIn = 20
