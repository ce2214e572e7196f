SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3}
  Names = {"a"}
  MaxFail = 1
  Locked = TRUE
  Cleanup = TRUE
INVARIANTS SoundNow SoundDisk
CHECK_DEADLOCK FALSE
