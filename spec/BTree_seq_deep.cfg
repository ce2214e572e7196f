SPECIFICATION Spec
CONSTANTS
  N = 10
  MinI = 2
  MaxI = 6
  MinL = 2
  MaxL = 6
  Sequential = TRUE
INVARIANTS Balanced TheMap Found
VIEW View
CHECK_DEADLOCK FALSE
