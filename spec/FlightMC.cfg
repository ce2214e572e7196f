SPECIFICATION Live
CONSTANTS
  Readers = {0, 1, 2}
  Blocks = {0, 1}
INVARIANTS Served Single
PROPERTY Answered
CHECK_DEADLOCK FALSE
