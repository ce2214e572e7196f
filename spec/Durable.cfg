SPECIFICATION Spec
CONSTANTS
 Tasks = {t1, t2}
 Syncers = {s1, s2}
 Ops = 2
 Syncs = 2
 FlagInside = TRUE
 ClearInside = TRUE
 MayFail = TRUE
INVARIANTS Atomic Ordered Durable
CHECK_DEADLOCK FALSE
