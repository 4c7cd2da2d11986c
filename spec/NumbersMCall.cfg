SPECIFICATION Spec
CONSTANTS Digits = {0, 1, 2, 3, 4, 9}
 MaxInt = 7
 MaxDec = 1
 OneIn = 100
INVARIANTS Chinese Suzhou
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
