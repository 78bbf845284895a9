SPECIFICATION Spec
CONSTANT Wide = TRUE
CHECK_DEADLOCK FALSE
