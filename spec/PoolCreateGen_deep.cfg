SPECIFICATION Spec
CONSTANT MaxLen = 6
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
