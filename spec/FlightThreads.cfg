SPECIFICATION Spec
CONSTANT Readers = {0, 1, 2}
CONSTRAINT Mark
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
