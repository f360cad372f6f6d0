SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Clients = {1,2}
  Lens = {0, 1, 2}
  Calls = 1
  Mr0 = 254
  Cr0 = 255
  Atomic = FALSE
INVARIANT Issued
