SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2}
  Names = {"a", "b"}
  MaxFail = 1
  Locked = TRUE
  Cleanup = TRUE
INVARIANTS SoundNow SoundDisk
CHECK_DEADLOCK FALSE
