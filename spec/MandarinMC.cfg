SPECIFICATION Spec
CONSTANTS
 Mode = "spell"
 MaxLen = 8
 OneIn = 8
VIEW View
INVARIANTS Spelled OnePer BackTakesLast Drains LetterGoes Consistent KeysRoundTrip
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
