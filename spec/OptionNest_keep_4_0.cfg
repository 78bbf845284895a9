SPECIFICATION Spec
CONSTANTS
  D = 4
  NVals = 2
  MoveKind = "keep"
  Caps = {"copy"}
  L = 0
  F = 254
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK StorageOK
PROPERTIES OuterStays
CHECK_DEADLOCK FALSE
