SPECIFICATION Spec
CONSTANTS MaxCmds = 4
 Cap = 1
 MaxResp = 2
 Drain = TRUE
 Locs = {0, 3}
INVARIANTS Paired Framed LockStep
PROPERTY Answered
CHECK_DEADLOCK FALSE
