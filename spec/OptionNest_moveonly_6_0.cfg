SPECIFICATION Spec
CONSTANTS
  D = 6
  NVals = 1
  MoveKind = "mark"
  Caps = {}
  L = 0
  F = 254
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK StorageOK
PROPERTIES OuterStays
CHECK_DEADLOCK FALSE
