CONSTANTS Lows = {0, 1, 8, 9, 10, 62, 63, 64, 65, 255, 256, 32768, 65534, 65535}
 Highs <- HighsD
SPECIFICATION Spec
INVARIANTS CoverOk Exclusive FieldOk
CHECK_DEADLOCK FALSE
