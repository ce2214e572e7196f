SPECIFICATION Spec
CONSTANTS
  MaxM = 14
  MaxF = 5
INVARIANT MDS
INVARIANT VMDS
CHECK_DEADLOCK FALSE
