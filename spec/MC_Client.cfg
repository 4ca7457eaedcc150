SPECIFICATION Spec
CONSTANTS MaxN = 2
 Room = 33
INVARIANTS OneFrame FrameReads NothingSentIfTooBig InOrder OkNeedsAll OkIsConsistent Agree
CHECK_DEADLOCK FALSE
