SPECIFICATION Spec
CONSTANTS
  Part = "seq"
  NVals = 2
  MoveKind = "keep"
  CanCopy = TRUE
  MaxLen = 3
  MinLen = 0
  Const = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTIES Frame
CHECK_DEADLOCK FALSE
