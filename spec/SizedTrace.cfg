SPECIFICATION Spec
INVARIANTS Inv CapsInv
CHECK_DEADLOCK FALSE
