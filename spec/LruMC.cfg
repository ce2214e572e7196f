SPECIFICATION Spec
CONSTANTS
  K = {0, 1, 2}
  Cap = 6
  MaxN = 4
INVARIANTS NoDup
PROPERTIES Recent Bounded Kept
CHECK_DEADLOCK FALSE
