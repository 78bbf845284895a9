SPECIFICATION Spec
CONSTANTS
  NVals = 3
  MoveKind = "keep"
  CanCopy = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTIES AtMostOne EmptyStays
CHECK_DEADLOCK FALSE
