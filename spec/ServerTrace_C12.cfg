SPECIFICATION Spec
INVARIANT C12Inv
CHECK_DEADLOCK FALSE
