CONSTANTS Counts = {0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 20, 30, 31, 32, 33, 48, 62, 63, 64}
 Rooms = {10, 11, 12, 13, 14, 15, 16, 20, 26, 27, 28, 44, 74, 75, 76, 77, 78, 90, 200, 4096}
 MaxSess = 3
 Prefix = TRUE
 Sessions = TRUE
SPECIFICATION Spec
INVARIANTS Understood Served Unknown
CHECK_DEADLOCK FALSE
