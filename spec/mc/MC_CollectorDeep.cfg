SPECIFICATION Spec
CONSTANTS
  D = 1
  MaxTime = 3
  MaxCollects = 4
  Handler = TRUE
  Kinds = {"a1", "a2", "b1", "c2", "single", "over", "cmd"}
INVARIANTS ExactlyOnce Whole PoolOk LastCompletes NotEarly HandledOnce
CHECK_DEADLOCK FALSE
