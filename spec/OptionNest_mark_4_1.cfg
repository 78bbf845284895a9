SPECIFICATION Spec
CONSTANTS
  D = 4
  NVals = 2
  MoveKind = "mark"
  Caps = {"copy"}
  L = 1
  F = 254
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK StorageOK
PROPERTIES OuterStays
CHECK_DEADLOCK FALSE
