CONSTANTS
  Mode = "access"
  D = 2
  K = 1
  N = 2
  Exceptions = TRUE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTY FiresIff
CHECK_DEADLOCK FALSE
