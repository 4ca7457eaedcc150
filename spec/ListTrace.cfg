SPECIFICATION Spec
INVARIANT Inv
CONSTANT Deep = FALSE
CHECK_DEADLOCK FALSE
