----------------------------- MODULE ConstTrace -----------------------------
EXTENDS ConstTable, TraceBase, FiniteSets
Ok(e) == \E j \in 1..Len(Table) : Table[j] = <<e.t, e.n, e.hi, e.lo>>
Inv == Judge(Ok(Line), "constant")
ASSUME /\ N = Len(Table)
       /\ {<<Trace[i].t, Trace[i].n>> : i \in 1..N} = {<<Table[j][1], Table[j][2]>> : j \in 1..Len(Table)}
=============================================================================
