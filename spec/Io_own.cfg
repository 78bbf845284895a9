SPECIFICATION Spec
CONSTANTS
  NVals = 3
  Reads = TRUE
  Streams = {"own"}
  Temps = FALSE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTIES Engagement OneTarget
CHECK_DEADLOCK FALSE
