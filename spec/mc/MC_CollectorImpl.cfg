SPECIFICATION Spec
CONSTANTS
  D = 1
  MaxTime = 2
  MaxCollects = 4
  Kinds = {"a1", "a2", "b1", "b2"}
INVARIANTS OnePipe CleanupOnce
PROPERTY Refines
CHECK_DEADLOCK FALSE
