SPECIFICATION Spec
INVARIANTS Range Inverse KeepsBase Unqualified OnlyQualified Classes
CHECK_DEADLOCK FALSE
