SPECIFICATION Spec
CONSTANTS
  NObj = 2
  NVal = 2
  Kind = "lref"
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTIES NeverWritesThrough OneObject WhoWrites WritesWhereBound
CHECK_DEADLOCK FALSE
