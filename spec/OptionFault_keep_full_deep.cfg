SPECIFICATION FSpec
CONSTANTS
  NSlots = 3
  NVals = 3
  MoveKind = "keep"
  Caps = {"copy","move","assign"}
VIEW View
ACTION_CONSTRAINT FEmit
INVARIANTS TypeOK
PROPERTIES Consistent EmptyStaysEmpty AssignedKeepsObject ReadOnly OthersUntouched
CHECK_DEADLOCK FALSE
