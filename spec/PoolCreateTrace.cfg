SPECIFICATION Spec
CONSTRAINT Mark
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
