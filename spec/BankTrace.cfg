SPECIFICATION Spec
CONSTANT Threads = {0, 1, 2, 3}
CONSTRAINT Mark
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
