SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Users = {1,2,3}
  Tables = {1, 2}
  Entries = 2
  Locked = TRUE
INVARIANTS Whole Same NoRace
