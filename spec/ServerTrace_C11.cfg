SPECIFICATION Spec
INVARIANT C11Inv
CHECK_DEADLOCK FALSE
