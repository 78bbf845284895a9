SPECIFICATION Spec
CONSTANTS
  NObj = 2
  NVal = 2
  Kind = "rref"
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTIES NeverWritesThrough OneObject WhoWrites WritesWhereBound
CHECK_DEADLOCK FALSE
