INIT Init
NEXT Next
CONSTANTS
  Zones = {z1, z2, z3}
  Size = 2
  Records = {a, b, c}
  MaxTxg = 2
  MaxLive = 2
  MaxFail = 1
  Reap = "durable"
INVARIANT Inv
SYMMETRY Sym
CHECK_DEADLOCK FALSE
