SPECIFICATION Spec
CONSTANTS
  D = 14
  L = 11
  F = 254
  NVals = 2
  CanCopy = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK StorageOK
CHECK_DEADLOCK FALSE
