SPECIFICATION Spec
CONSTANTS MaxN = 3
 Room = 42
INVARIANTS OneFrame FrameReads NothingSentIfTooBig InOrder OkNeedsAll OkIsConsistent Agree
CHECK_DEADLOCK FALSE
