SPECIFICATION Spec
CONSTANTS
  Part = "var"
  NVals = 2
  MoveKind = "mark"
  CanCopy = TRUE
  MaxLen = 3
  MinLen = 0
  Const = FALSE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTIES Frame
CHECK_DEADLOCK FALSE
