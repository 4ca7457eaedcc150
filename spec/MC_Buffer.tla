------------------------------ MODULE MC_Buffer ------------------------------
(* Memory with a 4-bit machine word: addresses 0..Word, so that offset + size
   can wrap.  Bounds are decided as the code must decide them (overflow is out of
   bounds); a read gives what was last written, ghost-tracked per cell.        *)
EXTENDS Integers, Sequences
CONSTANTS MaxLen, Word, Vals
VARIABLES m, last, r
vars == <<m, last, r>>
Sum(o, n) == (o + n) % (Word + 1)
Checked(o, n) == IF o + n > Word THEN FALSE ELSE o + n <= Len(m)   \* checked_add, then the slice bound
Init == \E k \in 0..MaxLen : m = [x \in 1..k |-> 0] /\ last = [x \in 1..k |-> 0] /\ r = [ok |-> TRUE, o |-> 0, n |-> 0, b |-> <<>>, w |-> FALSE]
Write == \E o \in 0..Word, n \in 0..MaxLen, v \in Vals :
   LET ok == Checked(o, n) IN
   /\ m' = IF ok THEN [x \in 1..Len(m) |-> IF x > o /\ x <= o + n THEN v ELSE m[x]] ELSE m
   /\ last' = IF o + n <= Len(m) THEN [x \in 1..Len(m) |-> IF x \in (o+1)..(o+n) THEN v ELSE last[x]] ELSE last
   /\ r' = [ok |-> ok, o |-> o, n |-> n, b |-> <<>>, w |-> TRUE]
Read == \E o \in 0..Word, n \in 0..Word :
   LET ok == Checked(o, n) IN
   /\ r' = [ok |-> ok, o |-> o, n |-> n, b |-> IF ok THEN SubSeq(m, o + 1, o + n) ELSE <<>>, w |-> FALSE]
   /\ UNCHANGED <<m, last>>
Next == Write \/ Read
Spec == Init /\ [][Next]_vars
Exact == r.ok <=> r.o + r.n <= Len(m)
Memory == m = last
ReadsLast == r.ok /\ ~r.w => r.b = SubSeq(last, r.o + 1, r.o + r.n)
=============================================================================
