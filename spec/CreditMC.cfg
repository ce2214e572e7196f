SPECIFICATION Spec
CONSTANTS
  Cap = 4
  N = 3
CONSTRAINT Bound
INVARIANTS Conserved Sound
CHECK_DEADLOCK FALSE
