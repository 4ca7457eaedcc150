SPECIFICATION Spec
INVARIANT C07Inv
CHECK_DEADLOCK FALSE
