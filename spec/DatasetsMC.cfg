SPECIFICATION Spec
CONSTANTS
  Locked = TRUE
  Procs = {p1, p2}
  Names = {"a", "b"}
  MaxOps = 4
INVARIANTS Good Abstract Same
CHECK_DEADLOCK FALSE
