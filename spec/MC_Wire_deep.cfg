CONSTANTS MaxLen = 8
 Alpha = {0, 1, 2, 3}
SPECIFICATION Spec
INVARIANTS RoundTrip PrefixOnly Permanent Kinds
CHECK_DEADLOCK FALSE
