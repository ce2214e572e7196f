SPECIFICATION Spec
CONSTANTS
  Readers = {0, 1, 2, 3}
  Blocks = {0, 1, 2}
CONSTRAINT Mark
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
