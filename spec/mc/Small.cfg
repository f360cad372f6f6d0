INIT Init
NEXT Next
INVARIANT Inv
CONSTANT Deep = FALSE
CHECK_DEADLOCK FALSE
