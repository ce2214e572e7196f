SPECIFICATION Spec
CONSTANTS
  Tasks = {t1, t2}
  Ops = 2
  Capacity = 3
  Wants = {1, 2, 5}
  BorrowFirst = TRUE
  Clamp = TRUE
INVARIANTS Conserved Excluded
PROPERTIES Progress
