---------------------------- MODULE TraceBase ----------------------------
(* Reads the log of the harness and walks it line by line.  The log is split
   in Chunks parts walked independently, so that TLC's workers share the work;
   for logs of independent calls each line is judged on its own.             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
N == Len(Trace)
Chunks == 64
Per == IF N = 0 THEN 1 ELSE ((N + Chunks - 1) \div Chunks)

VARIABLE l, hi
TBInit == \E c \in 0..Chunks-1 : /\ l = c * Per + 1
                                 /\ hi = IF (c+1) * Per > N THEN N ELSE (c+1) * Per
                                 /\ l <= hi
TBNext == l < hi /\ l' = l + 1 /\ hi' = hi
Spec == TBInit /\ [][TBNext]_<<l, hi>>
Line == Trace[l]
\* Every line must satisfy P; a rejected line is printed for the report.
Judge(p, why) == p \/ (PrintT(<<"REJECT", l, why>>) /\ FALSE)
=============================================================================
