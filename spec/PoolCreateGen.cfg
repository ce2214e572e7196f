SPECIFICATION Spec
CONSTANT MaxLen = 4
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
