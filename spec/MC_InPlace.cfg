SPECIFICATION Spec
CONSTANTS Len0 = 4
 Order = "late"
INVARIANTS Same SameResponse
CHECK_DEADLOCK FALSE
