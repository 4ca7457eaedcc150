----------------------------- MODULE MC_Adapter -----------------------------
(* The adapters call by call over a stream 0, 1, 2, ...: whatever fails, every
   byte delivered is the next unused byte of its call, nothing is repeated,
   less than one word is dropped, and nothing is called after a failure.       *)
EXTENDS Adapter, TLC
CONSTANTS MaxN, Kinds, Fs
VARIABLES kind, f, n, pc, pos, calls, r
vars == <<kind, f, n, pc, pos, calls, r>>
Add == <<7>>
Init == kind \in Kinds /\ f \in Fs /\ n \in 0..MaxN /\ pc = 1 /\ pos = 0 /\ calls = <<>> /\ r = "run"
P == Prog(kind, f, n, Add)
Step == /\ r = "run" /\ pc <= Len(P)
        /\ \E ok \in BOOLEAN :
             /\ calls' = Append(calls, [c |-> P[pc].c, n |-> P[pc].n, add |-> P[pc].add, ok |-> ok,
                                        b |-> IF ok THEN [x \in 1..P[pc].n |-> pos + x] ELSE <<>>])
             /\ pos' = IF ok THEN pos + P[pc].n ELSE pos
             /\ r' = IF ok THEN "run" ELSE "err"
        /\ pc' = pc + 1 /\ UNCHANGED <<kind, f, n>>
Done == r = "run" /\ pc > Len(P) /\ r' = "ok" /\ UNCHANGED <<kind, f, n, pc, pos, calls>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Out == SubSeq(Took(calls), 1, OutLen(f, n))
Conforms == r # "run" => OpOk(kind, [f |-> f, n |-> n, add |-> Add, calls |-> calls, r |-> r, b |-> IF r = "ok" THEN Out ELSE <<>>])
InOrder == r = "ok" => Out = [x \in 1..OutLen(f, n) |-> x]
Leftover == r = "ok" => pos >= OutLen(f, n) /\ pos - OutLen(f, n) < 4
AddOnce == \A i \in 1..Len(calls) : (calls[i].add = Add) <=> i = 1
=============================================================================
