SPECIFICATION Spec
CONSTANTS
  NVals = 3
  MoveKind = "mark"
  CanCopy = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTIES AtMostOne EmptyStays
CHECK_DEADLOCK FALSE
