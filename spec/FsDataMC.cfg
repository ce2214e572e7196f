SPECIFICATION Spec
CONSTANTS RS = 2
 N = 5
 Tags = {1, 2}
 MaxOps = 3
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
