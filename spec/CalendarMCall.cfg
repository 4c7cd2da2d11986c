SPECIFICATION Spec
CONSTANTS
 Back = 25567
 Last = 84000
 Stride = 100
 OneIn = 1
VIEW View
INVARIANTS Agree Known Chained YearsChain KnownYears
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
