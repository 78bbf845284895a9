SPECIFICATION Spec
CONSTANTS
  D = 2
  K = 3
  NVals = 3
  MoveKind = "keep"
  Writable = FALSE
  Caps = {"copy", "plain", "eq"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Exclusive AllApart
PROPERTIES Frame
CHECK_DEADLOCK FALSE
