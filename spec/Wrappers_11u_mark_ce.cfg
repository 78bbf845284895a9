SPECIFICATION Spec
CONSTANTS
  D = 1
  K = 1
  NVals = 3
  MoveKind = "mark"
  Writable = FALSE
  Caps = {"copy", "eq"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Exclusive AllApart
PROPERTIES Frame
CHECK_DEADLOCK FALSE
