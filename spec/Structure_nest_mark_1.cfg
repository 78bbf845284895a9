SPECIFICATION Spec
CONSTANTS
  Part = "nest"
  NVals = 2
  MoveKind = "mark"
  CanCopy = TRUE
  Depth = 1
  SecondMoves = FALSE
  IsRef = FALSE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTIES ZipLaw ZipFrame PairLaw Frame
CHECK_DEADLOCK FALSE
