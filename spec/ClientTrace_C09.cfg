SPECIFICATION Spec
INVARIANT C09Inv
CHECK_DEADLOCK FALSE
