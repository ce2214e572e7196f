SPECIFICATION Spec
CONSTANTS
 Tasks = {t1, t2}
 Syncers = {s1, s2}
 Ops = 3
 Syncs = 3
 FlagInside = TRUE
 ClearInside = TRUE
 MayFail = TRUE
INVARIANTS Atomic Ordered Durable
CHECK_DEADLOCK FALSE
