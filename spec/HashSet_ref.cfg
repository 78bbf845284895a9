SPECIFICATION Spec
CONSTANTS
  NVals = 2
  Profile = "ref"
  Copies = TRUE
INVARIANTS TypeOK EqualHash RefHash
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
