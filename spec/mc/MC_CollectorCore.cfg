SPECIFICATION Spec
CONSTANTS
  D = 1
  MaxTime = 1
  MaxCollects = 3
  Handler = FALSE
  Kinds = {"a1", "a2", "single", "over"}
PROPERTY Refines
CHECK_DEADLOCK FALSE
