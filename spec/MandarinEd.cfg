SPECIFICATION Spec
CONSTANTS
 Mode = "edit"
 MaxLen = 5
 OneIn = 40
VIEW View
INVARIANTS Spelled OnePer BackTakesLast Drains LetterGoes Consistent KeysRoundTrip
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
