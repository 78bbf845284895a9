SPECIFICATION Spec
CONSTANTS
  Part = "seq"
  NVals = 2
  MoveKind = "keep"
  CanCopy = TRUE
  MaxLen = 3
  MinLen = 3
  Const = FALSE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTIES Frame
CHECK_DEADLOCK FALSE
