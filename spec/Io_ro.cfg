SPECIFICATION Spec
CONSTANTS
  NVals = 3
  Reads = FALSE
  Streams = {"own", "s", "w"}
  Temps = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTIES Engagement OneTarget
CHECK_DEADLOCK FALSE
