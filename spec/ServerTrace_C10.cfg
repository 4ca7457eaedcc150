SPECIFICATION Spec
INVARIANT C10Inv
CHECK_DEADLOCK FALSE
