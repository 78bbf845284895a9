SPECIFICATION Spec
CONSTANTS
  D = 258
  L = 0
  F = 254
  NVals = 2
  CanCopy = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK StorageOK
CHECK_DEADLOCK FALSE
