SPECIFICATION Spec
CONSTANTS
  D = 1
  MaxTime = 2
  MaxCollects = 3
  Handler = TRUE
  Kinds = {"a1", "a2", "b1"}
PROPERTIES EventuallyExpired EventuallyHandled
CHECK_DEADLOCK FALSE
