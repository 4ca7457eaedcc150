CONSTANTS Counts = {0, 1, 2, 3, 31, 32, 63, 64}
 Rooms = {10, 11, 12, 13, 14, 44, 75, 76, 77, 200}
 MaxSess = 2
 Prefix = TRUE
 Sessions = FALSE
SPECIFICATION Spec
INVARIANTS Understood Served Unknown
CHECK_DEADLOCK FALSE
