CONSTANTS
  Mode = "conv"
  N = 3
  D = 2
  Tracked = FALSE
  Marks = TRUE
  Copyable = TRUE
  Implicit = TRUE
  Scalar = FALSE
  Greedy = FALSE
  Const = FALSE
  Assign = TRUE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTY LvalueKept
CHECK_DEADLOCK FALSE
