SPECIFICATION Spec
INVARIANT C04Inv
CHECK_DEADLOCK FALSE
