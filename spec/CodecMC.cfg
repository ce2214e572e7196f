SPECIFICATION Spec
CONSTANTS
  MaxM = 8
  MaxF = 4
INVARIANT MDS
INVARIANT VMDS
CHECK_DEADLOCK FALSE
