SPECIFICATION Spec
CONSTANT D = 0
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
