SPECIFICATION Spec
CONSTANTS
  NVals = 2
  Reads = TRUE
  Streams = {"own", "s", "w"}
  Temps = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTIES Engagement OneTarget
CHECK_DEADLOCK FALSE
