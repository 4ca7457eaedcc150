----------------------------- MODULE MC_InPlace -----------------------------
(* One command executed in micro-steps on one shared buffer and, in lock step,
   on separate buffers (header fields of one byte each).  Response bytes start
   at the beginning of the same buffer, so whether they agree depends on the
   order of reads and writes: everything is read before anything is written.
   Order = "late" is the required order; "early" writes the header first.       *)
EXTENDS Integers, Sequences
CONSTANTS Len0, Order
VARIABLES pc, one, sep, rq, r1, r2, len
vars == <<pc, one, sep, rq, r1, r2, len>>
Byte == 0..2
\* request: size, code, count ; response: size, rc, payload
Init == /\ len \in 0..Len0 /\ rq \in [1..Len0 -> Byte] /\ one = rq /\ sep = [x \in 1..Len0 |-> 9]
        /\ r1 = <<>> /\ r2 = <<>> /\ pc = IF Order = "early" THEN "head" ELSE "size"
Rd(b, i) == IF i <= len THEN b[i] ELSE 99
Read(step, i, next) == /\ pc = step /\ r1' = Append(r1, Rd(one, i)) /\ r2' = Append(r2, Rd(rq, i)) /\ pc' = next
                       /\ UNCHANGED <<one, sep, rq, len>>
Put(b, i, v) == IF i <= Len0 THEN [b EXCEPT ![i] = v] ELSE b
PutHead == /\ pc = "head" /\ one' = Put(Put(one, 1, 7), 2, 0) /\ sep' = Put(Put(sep, 1, 7), 2, 0)
        /\ pc' = (IF Order = "early" THEN "size" ELSE "done") /\ UNCHANGED <<rq, r1, r2, len>>
Load == /\ pc = "load" /\ one' = Put(one, 3, 5) /\ sep' = Put(sep, 3, 5)
        /\ pc' = (IF Order = "early" THEN "done" ELSE "head") /\ UNCHANGED <<rq, r1, r2, len>>
Next == Read("size", 1, "code") \/ Read("code", 2, "count") \/ Read("count", 3, "load") \/ Load \/ PutHead
Spec == Init /\ [][Next]_vars
Same == r1 = r2
SameResponse == pc = "done" => \A i \in 1..(IF Len0 < 3 THEN Len0 ELSE 3) : one[i] = sep[i]
=============================================================================
