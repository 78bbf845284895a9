SPECIFICATION Spec
CONSTANTS
  D = 2
  NVals = 2
  MoveKind = "mark"
  Caps = {"copy"}
  L = 254
  F = 254
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK StorageOK
PROPERTIES OuterStays
CHECK_DEADLOCK FALSE
