SPECIFICATION Spec
CONSTANTS
  N = 10
  MinI = 2
  MaxI = 5
  MinL = 2
  MaxL = 5
  Sequential = FALSE
INVARIANTS Balanced TheMap Found
VIEW View
CHECK_DEADLOCK FALSE
