SPECIFICATION FSpec
CONSTANTS
  NSlots = 2
  NVals = 2
  MoveKind = "keep"
  Caps = {"copy","move","assign"}
VIEW View
ACTION_CONSTRAINT FEmit
INVARIANTS TypeOK
PROPERTIES Consistent EmptyStaysEmpty AssignedKeepsObject ReadOnly OthersUntouched
CHECK_DEADLOCK FALSE
