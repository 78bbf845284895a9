SPECIFICATION Spec
CONSTANTS
  NVals = 3
  Reads = TRUE
  Streams = {"own", "s"}
  Temps = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTIES Engagement OneTarget
CHECK_DEADLOCK FALSE
