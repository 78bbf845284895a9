CONSTANTS
  Mode = "conv"
  N = 3
  D = 2
  Tracked = FALSE
  Marks = FALSE
  Copyable = TRUE
  Implicit = FALSE
  Scalar = FALSE
  Greedy = FALSE
  Const = FALSE
  Assign = TRUE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTY LvalueKept
CHECK_DEADLOCK FALSE
