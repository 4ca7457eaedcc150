SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Word = 15
 Vals = {0, 1, 2}
INVARIANTS Exact Memory ReadsLast
CHECK_DEADLOCK FALSE
