SPECIFICATION Spec
CONSTANTS Cap = 4
 Alpha = {0, 1, 2}
 MaxLen = 5
INVARIANTS Bounded Exact RefusedIffTooLong Back EveryFits
CHECK_DEADLOCK FALSE
