SPECIFICATION Spec
CONSTANTS
  Part = "ptr"
  NVals = 2
  MoveKind = "mark"
  CanCopy = TRUE
  MaxLen = 2
  MinLen = 0
  Const = FALSE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTIES Frame
CHECK_DEADLOCK FALSE
