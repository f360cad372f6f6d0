SPECIFICATION Spec
CONSTANTS
  D = 1
  MaxTime = 3
  MaxCollects = 5
  Kinds = {"a1", "a2", "b1", "b2", "b3"}
INVARIANTS OnePipe CleanupOnce
PROPERTY Refines
CHECK_DEADLOCK FALSE
