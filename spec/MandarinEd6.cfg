SPECIFICATION Spec
CONSTANTS
 Mode = "edit"
 MaxLen = 8
 OneIn = 200
VIEW View
INVARIANTS Spelled OnePer BackTakesLast Drains LetterGoes Consistent KeysRoundTrip
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
