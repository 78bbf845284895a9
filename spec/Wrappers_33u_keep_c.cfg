SPECIFICATION Spec
CONSTANTS
  D = 3
  K = 3
  NVals = 3
  MoveKind = "keep"
  Writable = FALSE
  Caps = {"copy"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Exclusive AllApart
PROPERTIES Frame
CHECK_DEADLOCK FALSE
