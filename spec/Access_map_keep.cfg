SPECIFICATION Spec
CONSTANTS
  Part = "map"
  NVals = 2
  MoveKind = "keep"
  CanCopy = TRUE
  MaxLen = 3
  MinLen = 0
  Const = FALSE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTIES Frame
CHECK_DEADLOCK FALSE
