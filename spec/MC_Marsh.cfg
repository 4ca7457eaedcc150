CONSTANTS Trail <- TrailC
 DecSets = {0, 1, 15, 240, 255}
SPECIFICATION Spec
INVARIANTS RoundTrip Bounded Refused
CHECK_DEADLOCK FALSE
