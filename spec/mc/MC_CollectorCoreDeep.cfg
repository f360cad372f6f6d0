SPECIFICATION Spec
CONSTANTS
  D = 1
  MaxTime = 1
  MaxCollects = 4
  Handler = FALSE
  Kinds = {"a1", "a2", "b1", "c2", "single", "over", "cmd"}
PROPERTY Refines
CHECK_DEADLOCK FALSE
