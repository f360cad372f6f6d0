INIT Init
NEXT Next
INVARIANT AsRead
CHECK_DEADLOCK FALSE
CONSTANTS
  Copies = FALSE
  Frames = 2
  Places = 3
