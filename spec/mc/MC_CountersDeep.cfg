SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Clients = {1,2,3}
  Lens = {1, 2, 3}
  Calls = 1
  Mr0 = 254
  Cr0 = 255
  Atomic = TRUE
INVARIANT Issued
