SPECIFICATION Spec
CONSTANTS Len0 = 6
 Order = "late"
INVARIANTS Same SameResponse
CHECK_DEADLOCK FALSE
