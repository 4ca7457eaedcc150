SPECIFICATION Spec
CONSTANTS Cap = 5
 Elems = {1, 2, 3}
 Extra = 2
INVARIANTS Bounded Exact
PROPERTY RefuseOnlyWhenFull
CHECK_DEADLOCK FALSE
