INIT Init
NEXT Next
INVARIANT Inv
CONSTANT Deep = TRUE
CHECK_DEADLOCK FALSE
