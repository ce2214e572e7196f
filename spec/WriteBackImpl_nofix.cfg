SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2, t3}
  Cap = 3
  Wants = {2, 3}
  Rounds = 1
  Recheck = FALSE
INVARIANTS NoOverdraft Conserved
PROPERTY Served
