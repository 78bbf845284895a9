SPECIFICATION Spec
CONSTANTS
  NVals = 2
  Writes = TRUE
  MakesValue = FALSE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Valid Laws
CHECK_DEADLOCK FALSE
