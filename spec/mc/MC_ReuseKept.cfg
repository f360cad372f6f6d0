INIT InitR
NEXT NextR
INVARIANT AsNew
CHECK_DEADLOCK FALSE
CONSTANTS
  Deep = FALSE
  Reset = FALSE
  Reads = 2
