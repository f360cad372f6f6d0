SPECIFICATION Spec
CONSTANT D = 2
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
