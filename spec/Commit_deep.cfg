SPECIFICATION Spec
CONSTANTS Disks = {1, 2}
 Zones = {1, 2, 3}
 MaxVersion = 3
 MaxFail = 2
 Prefer = "latest"
 Barrier = TRUE
 Alternate = TRUE
 Skip = 1
 Reap = "after"
INVARIANTS Mountable Durable Consistent
CHECK_DEADLOCK FALSE
