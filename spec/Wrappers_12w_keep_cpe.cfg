SPECIFICATION Spec
CONSTANTS
  D = 1
  K = 2
  NVals = 3
  MoveKind = "keep"
  Writable = TRUE
  Caps = {"copy", "plain", "eq"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Exclusive AllApart
PROPERTIES Frame
CHECK_DEADLOCK FALSE
