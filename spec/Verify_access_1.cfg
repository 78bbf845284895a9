CONSTANTS
  Mode = "access"
  D = 1
  K = 1
  N = 3
  Exceptions = TRUE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTY FiresIff
CHECK_DEADLOCK FALSE
