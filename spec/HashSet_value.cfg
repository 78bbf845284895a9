SPECIFICATION Spec
CONSTANTS
  NVals = 3
  Profile = "value"
  Copies = TRUE
INVARIANTS TypeOK EqualHash RefHash
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
