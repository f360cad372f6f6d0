SPECIFICATION Spec
CONSTANTS
  D = 1
  MaxTime = 2
  MaxCollects = 3
  Handler = TRUE
  Kinds = {"a1", "a2", "b1", "c2", "over"}
INVARIANTS ExactlyOnce Whole PoolOk LastCompletes NotEarly HandledOnce
CHECK_DEADLOCK FALSE
