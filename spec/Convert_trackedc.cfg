CONSTANTS
  Mode = "conv"
  N = 3
  D = 2
  Tracked = TRUE
  Marks = TRUE
  Copyable = TRUE
  Implicit = TRUE
  Scalar = FALSE
  Greedy = FALSE
  Const = TRUE
  Assign = FALSE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTY LvalueKept
CHECK_DEADLOCK FALSE
