SPECIFICATION Spec
CONSTANTS MaxCmds = 4
 Sizes = {0, 2, 5}
 Room = 13
INVARIANTS Disciplined NothingWithoutGenerator Answered WellFormed OnlyGenerated
CHECK_DEADLOCK FALSE
