SPECIFICATION Spec
INVARIANT C03Inv
CHECK_DEADLOCK FALSE
