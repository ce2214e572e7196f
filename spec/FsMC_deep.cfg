SPECIFICATION Spec
CONSTANTS Names = {"a", "b"}
 MaxIno = 5
 MaxOps = 12
INVARIANTS Inv Held Reach
VIEW View
CHECK_DEADLOCK FALSE
