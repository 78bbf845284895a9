SPECIFICATION Spec
CONSTANTS
  D = 9
  L = 100
  F = 254
  NVals = 2
  CanCopy = FALSE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK StorageOK
CHECK_DEADLOCK FALSE
