SPECIFICATION Spec
CONSTANTS Cap = 3
 Alpha = {0, 1, 2}
 MaxLen = 4
INVARIANTS Bounded Exact RefusedIffTooLong Back EveryFits
CHECK_DEADLOCK FALSE
