SPECIFICATION Spec
INVARIANTS Unique Distinct Algs Flags Handles
CHECK_DEADLOCK FALSE
