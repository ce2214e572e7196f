SPECIFICATION Spec
CONSTANT Ns = {2, 3, 5, 7, 11}
INVARIANTS Declustered Bijective Balanced Even Quick Periodic
CHECK_DEADLOCK FALSE
