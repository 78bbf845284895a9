SPECIFICATION Spec
CONSTANTS
  NSlots = 3
  NVals = 3
  MoveKind = "mark"
  Caps = {"copy","move","assign"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTIES LiveIsEngaged LocalStep CopyStep MoveKeepsEngaged CallOnce RvalueNoCopy
CHECK_DEADLOCK FALSE
