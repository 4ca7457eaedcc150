SPECIFICATION Spec
CONSTANTS Cap = 3
 Elems = {1, 2}
 Extra = 2
INVARIANTS Bounded Exact
PROPERTY RefuseOnlyWhenFull
CHECK_DEADLOCK FALSE
