SPECIFICATION Spec
CONSTANTS MaxN = 20
 Kinds = {"all", "words", "u32", "bytes"}
 Fs = {"fill", "fillvia", "u32", "u64", "u32fill", "u64fill", "u64u32"}
INVARIANTS Conforms InOrder Leftover AddOnce
CHECK_DEADLOCK FALSE
