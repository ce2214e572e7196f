SPECIFICATION Spec
CONSTANTS Names = {"a", "b"}
 MaxIno = 4
 MaxOps = 7
INVARIANTS Inv Held Reach
VIEW View
CHECK_DEADLOCK FALSE
