SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Users = {1,2}
  Tables = {1, 2}
  Entries = 2
  Locked = FALSE
INVARIANTS Whole Same NoRace
