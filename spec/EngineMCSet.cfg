SPECIFICATION Spec
VIEW View
INVARIANTS OK Highlighted
PROPERTIES ListTakesKeys OnlyNamed Outlives Activated AtOnce LeavingSilent SettingsSilent NotTwice
CONSTRAINT Deep8
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS Raised <- RaisedUnits
  Names <- [MandarinTables]SmallNames
  Valid <- [Mandarin]SmallValid
 LearnAbove <- NoLearning
 Capacity <- CapacityV
 MaxReadings = 1
 Modes <- McOnly
 Ops <- OpsSet
 Cfgs <- CfgsSet
 OneIn = 4
