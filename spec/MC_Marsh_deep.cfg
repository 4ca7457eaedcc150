CONSTANTS Trail <- TrailC
 DecSets = {0, 1, 2, 4, 8, 16, 32, 64, 128, 254, 253, 251, 247, 239, 223, 191, 127, 15, 240, 255}
SPECIFICATION Spec
INVARIANTS RoundTrip Bounded Refused
CHECK_DEADLOCK FALSE
