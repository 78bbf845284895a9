SPECIFICATION Spec
CONSTANTS
  D = 250
  L = 240
  F = 254
  NVals = 2
  CanCopy = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK StorageOK
CHECK_DEADLOCK FALSE
