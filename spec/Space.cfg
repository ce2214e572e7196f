SPECIFICATION Spec
CONSTANTS
  Zones = {z1, z2, z3}
  Size = 2
  Records = {a, b}
  MaxTxg = 1
  MaxLive = 2
  MaxFail = 0
  Reap = "durable"
INVARIANT Inv
PROPERTY Reclaimed
CHECK_DEADLOCK FALSE
