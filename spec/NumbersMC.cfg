SPECIFICATION Spec
CONSTANTS Digits = {0, 1, 2, 5}
 MaxInt = 5
 MaxDec = 2
 OneIn = 60
INVARIANTS Chinese Suzhou
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
