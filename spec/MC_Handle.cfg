CONSTANTS Lows = {0, 9, 10, 63, 64, 65535}
 Highs <- HighsQ
SPECIFICATION Spec
INVARIANTS CoverOk Exclusive FieldOk
CHECK_DEADLOCK FALSE
