SPECIFICATION Spec
CONSTANTS RS = 3
 N = 7
 Tags = {1, 2}
 MaxOps = 12
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
