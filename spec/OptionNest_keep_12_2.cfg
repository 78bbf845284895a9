SPECIFICATION Spec
CONSTANTS
  D = 12
  NVals = 1
  MoveKind = "keep"
  Caps = {"copy"}
  L = 2
  F = 254
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK StorageOK
PROPERTIES OuterStays
CHECK_DEADLOCK FALSE
