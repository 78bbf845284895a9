SPECIFICATION Spec
CONSTANTS
  D = 258
  L = 255
  F = 254
  NVals = 2
  CanCopy = FALSE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK StorageOK
CHECK_DEADLOCK FALSE
