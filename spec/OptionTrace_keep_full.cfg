SPECIFICATION TSpec
CONSTANTS
  NSlots = 3
  NVals = 3
  MoveKind = "keep"
  Caps = {"copy","move","assign"}
VIEW TView
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
