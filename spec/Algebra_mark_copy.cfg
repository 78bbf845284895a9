SPECIFICATION Spec
CONSTANTS
  NVals = 2
  MoveKind = "mark"
  CanCopy = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTIES AtMostOne EmptyStays
CHECK_DEADLOCK FALSE
