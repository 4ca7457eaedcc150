SPECIFICATION Spec
CONSTANTS Tries = 6
 CleanStale = TRUE
 KillOnFail = TRUE
 WaitOnDrop = TRUE
INVARIANTS OwnProcess NoLeak
PROPERTIES Decides DropEnds
CHECK_DEADLOCK FALSE
