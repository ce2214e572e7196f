SPECIFICATION Spec
CONSTANTS
  Locked = TRUE
  Procs = {p1, p2, p3}
  Names = {"a", "b"}
  MaxOps = 6
INVARIANTS Good Abstract Same
CHECK_DEADLOCK FALSE
