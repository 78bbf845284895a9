SPECIFICATION Spec
CONSTANTS
  Part = "zip"
  NVals = 2
  MoveKind = "mark"
  CanCopy = FALSE
  Depth = 1
  SecondMoves = FALSE
  IsRef = FALSE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTIES ZipLaw ZipFrame PairLaw Frame
CHECK_DEADLOCK FALSE
