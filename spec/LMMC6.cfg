SPECIFICATION Spec
INVARIANTS Once Sources Complete First
ACTION_CONSTRAINT Constraint
CHECK_DEADLOCK FALSE
CONSTANTS MaxList = 2
 OneIn = 6
