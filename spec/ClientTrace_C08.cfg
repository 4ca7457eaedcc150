SPECIFICATION Spec
INVARIANT C08Inv
CHECK_DEADLOCK FALSE
