SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  NVals = 2
  MoveKind = "keep"
  Caps = {"copy","move","assign"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK
PROPERTIES LiveIsEngaged LocalStep CopyStep MoveKeepsEngaged CallOnce RvalueNoCopy
CHECK_DEADLOCK FALSE
