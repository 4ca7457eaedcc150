SPECIFICATION Spec
INVARIANT C02Inv
CHECK_DEADLOCK FALSE
