INIT Init
NEXT Next
INVARIANT AsRead
CHECK_DEADLOCK FALSE
CONSTANTS
  Copies = TRUE
  Frames = 2
  Places = 3
