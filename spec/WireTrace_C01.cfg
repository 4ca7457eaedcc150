SPECIFICATION Spec
INVARIANT C01Inv
CHECK_DEADLOCK FALSE
